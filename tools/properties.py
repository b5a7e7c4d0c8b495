#!/usr/bin/env python3
"""Source of properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MT = "merkletree/merkletree.go"
p("C01", "The Merkle tree is a write-once map from entry index to entry",
  "An entry whose elements are field elements and whose index is new is stored and from then on returned unchanged by a lookup of its index; an entry with an already present index, with an element outside the field, or that would need more levels than the tree has is refused with an error and leaves the tree and its root exactly as they were. Looking up an index that was never stored reports that it is absent. Two inserts running at the same time behave as if one came after the other.",
  ["inputs", "histories", "schedules"], "every sequence of inserts and lookups of entries with arbitrary contents, at any tree depth, and every interleaving of two inserters",
  "The tests insert a few fixed entries sequentially; the outcome depends on which bits of the index hashes agree, which the tests sample at a handful of points and never at the deepest level, and no test runs two inserters.",
  [MT, "merkletree/node.go", "merkletree/utils.go", "common/common.go"],
  [("path descent and leaf push-down", MT + ":addLeaf, pushLeaf"), ("duplicate and depth errors", MT + ":addLeaf"), ("field check before insert", MT + ":CheckEntryInField"), ("tree lock", MT + ":AddEntry")],
  [("root key", "hash of the current root node, kept in memory and in storage", MT + ":MerkleTree.rootKey")],
  ["error and root after each insert", "lookup result per index"])

p("C02", "The Merkle root is a canonical commitment to the set of entries",
  "Two trees that hold the same entries have the same root whatever the order of insertion, and two trees that hold different entries have different roots. The empty tree has the zero root, and the root of a tree never depends on rejected inserts.",
  ["inputs", "histories"], "all sets of entries with arbitrary contents and all insertion orders of them",
  "The tests compare two orders of a few constant entries; they cannot show that every permutation and every pair of different sets behaves so.",
  [MT, "merkletree/node.go", "merkletree/utils.go"],
  [("node keys derived from content only", "merkletree/node.go:Key"), ("leaf push-down independent of order", MT + ":pushLeaf"), ("leaf and middle hashes are domain separated", "merkletree/node.go:LeafKey")],
  None, ["root after inserts"])

p("C03", "Every stored or absent index has a Merkle proof that verifies",
  "For any tree and any of its past or present roots, the proof generated for an index states existence exactly when that root's tree holds the index, and verifies against that root with the stored entry's hashes. A generated proof still verifies after being serialised and parsed again.",
  ["inputs", "histories"], "every history of inserts of arbitrary entries, every root reached in it, and every queried index",
  "The tests generate proofs for fixed entries; completeness depends on the shape of the tree, which depends on hash bits the tests do not control.",
  [MT], [("proof generation", MT + ":GenerateProof"), ("root recomputation", MT + ":RootFromProof"), ("sibling bitmap", "common/common.go:SetBitBigEndian")], None,
  ["result of proof verification"])

p("C04", "No Merkle proof verifies for a statement that is false of the tree",
  "A proof, however it was made, that verifies as existence against a tree's root for some index hash and value hash implies that the tree holds an entry with exactly these hashes; one that verifies as non-existence implies that the tree holds no entry with that index hash. This relies only on the hash function being collision resistant.",
  ["inputs"], "every proof byte string up to the bound, every tree of up to the bound, every index and value hash",
  "The tests check a few wrong proofs; soundness quantifies over all proofs an adversary may write.",
  [MT, "merkletree/node.go"], [("root recomputation and comparison", MT + ":RootFromProof, VerifyProof"), ("auxiliary leaf must have a different index", MT + ":RootFromProof"), ("domain separation of leaves", "merkletree/node.go:LeafKey")], None,
  ["result of proof verification"])

p("C05", "Merkle proof encodings round-trip and the parser never crashes",
  "Parsing never panics on any byte string: it returns a proof or an error. A parsed or generated proof serialises to bytes and to JSON text that parse back to an equal proof with the same existence flag, depth, siblings at the same levels and auxiliary leaf, and the full sibling list has one entry per level with zero hashes at the empty ones.",
  ["inputs"], "every byte string up to the length bound, every proof generated from a tree within the bounds",
  "The tests round-trip a few proofs and try two malformed inputs; malformed depths and bitmaps are an input space they do not touch.",
  [MT, "common/common.go"], [("proof parser", MT + ":NewProofFromBytes"), ("proof serialiser", MT + ":Bytes, MarshalJSON"), ("sibling expansion", MT + ":SiblingsFromProof, AllSiblingsCircom")], None,
  ["parsed proof or error"])

p("C06", "A dumped Merkle tree can be imported and is the same tree",
  "Importing the dump of a tree, whether the node dump or the list of claims, into an empty tree yields the same root and the same entries, also after reopening the storage. A node dump that is cut short or has no root is refused with an error and leaves the receiving tree and its storage unchanged. A dump taken while entries are added is that of one root the tree had, and one that could not be written in full is an error.",
  ["inputs", "fault_sequences", "schedules"], "all trees within the bounds with arbitrary entries, and every truncation point of their dumps",
  "The tests import dumps of one tree into memory; they never reopen the imported tree and cut the dump at two places only.",
  [MT], [("length-prefixed key-value records", MT + ":serializeKV, deserializeKV"), ("single transaction per import", MT + ":ImportTree"), ("claim dump", MT + ":DumpClaims, ImportDumpedClaims")], None,
  ["root and lookups of the importing tree", "storage contents after reopening"])

p("C07", "Snapshots and historical roots stay readable and immutable",
  "A snapshot taken at any root the tree has had answers every lookup, proof and walk as the tree did at that root, however the tree grows afterwards. Inserting into a snapshot is refused and changes nothing, and taking a snapshot of a root the tree never had is an error.",
  ["histories", "inputs"], "every history of inserts of arbitrary entries, every root reached, every later insert",
  "The tests look at one snapshot of one constant tree.",
  [MT], [("nodes are never overwritten", MT + ":addNode"), ("read-only flag", MT + ":Snapshot, AddEntry")], None, ["lookups through the snapshot", "root of the parent tree"])

p("C08", "The stored tree equals the live tree after any success or failure",
  "After every insert, successful or not, and after any single failing storage operation, the root held in memory equals the root a fresh open of the same storage finds, and every entry whose insert reported success is found there. An insert that reports an error leaves both as before, and may be retried.",
  ["fault_sequences", "crash_points", "histories"], "every history of inserts within the bounds, with a fault injected at every storage operation",
  "No test injects storage faults or reopens a tree in the middle of a history.",
  [MT, "db/memory.go", "db/leveldb.go"], [("root and nodes written in one transaction", MT + ":AddEntry"), ("root loaded at open", MT + ":NewMerkleTree")],
  [("stored root", "record with the current root", MT + ":rootNodeValue")], ["root in memory and after reopening"])

p("C09", "An entry counts as present only if all of its elements match",
  "The membership check of an entry under a root succeeds exactly when the tree of that root holds an entry equal to it in every element of index and value, and otherwise reports whether the index is absent or the data differs. Entry equality is equality of the serialised entries.",
  ["inputs"], "all pairs of stored and queried entries with arbitrary elements, under the current and past roots",
  "The tests query the very entry they inserted and one with another index.",
  [MT], [("exact data comparison", MT + ":EntryExists, Data.Equal")], None, ["result of the membership check"])

p("C10", "Identity identifiers round-trip and corrupted ones are rejected",
  "An identifier built from a type and genesis bytes carries them unchanged, passes its own validation, and its byte, text, JSON and integer forms parse back to the same identifier. Any 31-byte value whose checksum is not the sum of its other bytes, any identifier of the wrong length and the all-zero identifier are refused by the parsers.",
  ["inputs"], "every type, every genesis value, every 31-byte string and strings of other lengths",
  "The tests use two fixed identifiers and flip a few bytes.",
  ["core/id.go", "core/genesis/genesis.go"], [("checksum computation and comparison", "core/id.go:CalculateChecksum, CheckChecksum"), ("parsers validate", "core/id.go:IDFromBytes, IDFromString, UnmarshalText")], None, ["identifier or error"])

p("C11", "The identity state and genesis identifier bind all three tree roots",
  "The state of an identity is determined by its claims, revocations and roots-history tree roots, and two different triples, including the same roots in other positions, give different states. The genesis identifier is a function of the genesis state's leading bytes, type and checksum only, and a proof of genesis is accepted exactly for that identifier and state.",
  ["inputs"], "all triples of roots", "The tests compute one state from constants; binding is a statement about all pairs of triples.",
  ["core/id.go", "core/genesis/genesis.go", "core/proof/proof.go"], [("hash of three roots", "core/id.go:IdenState"), ("genesis id from state", "core/genesis/genesis.go, core/id.go:IdGenesisFromIdenState"), ("published data check", "core/proof/proof.go")], None, ["computed state and identifier"])

p("C12", "Every claim type survives encoding into a tree entry and back",
  "A claim of any supported type, turned into a tree entry and parsed back, has the same contents and the same metadata, and the entry consists of valid field elements so that it can always be inserted in a tree. Claims of different types never parse as each other.",
  ["inputs"], "every field value of every claim type, every metadata", "The tests round-trip one constant per claim type.",
  ["core/claims/claim.go", "core/claims/claim_types.go", "core/claims/claimBasic.go", "core/claims/claimKeyBabyJub.go", "core/claims/claimOtherIden.go"],
  [("slot layout of each type", "core/claims/claim*.go:Entry, NewClaim*FromEntry"), ("31-byte data slots keep elements in the field", "core/claims/utils.go")], None, ["parsed claim", "insertability of the entry"])

p("C13", "Claim metadata is stored and read back faithfully",
  "The type, subject position and subject identifier, expiration, version and revocation nonce given to a claim are exactly what is read from its entry and from its JSON form, whatever their values, and setting one of them does not disturb another or the claim's data. Reading the metadata of any entry never panics.",
  ["inputs"], "all metadata values and all entries", "The tests use default metadata; the subject positions and the flag combinations are never exercised.",
  ["core/claims/claim.go"], [("header bit layout", "core/claims/claim.go:ClaimHeader.Marshal, Unmarshal"), ("metadata layout", "core/claims/claim.go:Metadata.Marshal, Unmarshal"), ("JSON form", "core/claims/claim.go:MarshalJSON, UnmarshalJSON")], None, ["metadata read back"])

p("C14", "A claim's index identifies the claim whatever its nonce and value",
  "The index part of a claim's entry does not depend on the revocation nonce, the expiration or any data declared as value, so re-issuing the same claim under another nonce collides with the first, and two claims that differ in type, subject or index data have different indexes.",
  ["inputs"], "all pairs of claims", "Tests compare single constants; this is a statement about pairs of arbitrary claims.",
  ["core/claims/claim.go", "core/claims/claimBasic.go", "core/claims/claimKeyBabyJub.go", "core/claims/claimOtherIden.go"], [("slot layout", "core/claims/claim.go")], None, ["index of the entry"])

p("C15", "Parsing arbitrary entries as claims never crashes and keeps the data",
  "Turning any tree entry, or any hexadecimal text, into a claim returns a claim or an error and never panics. A generic claim keeps the complete data of the entry it was made from: its entry equals the original.",
  ["inputs"], "every entry of field elements and every text within the length bound", "The tests parse only entries they produced.",
  ["core/claims/claim.go", "core/claims/claim_types.go"], [("dispatch on claim type", "core/claims/claim.go:NewClaimFromEntry"), ("generic claim", "core/claims/claim.go:NewClaimGeneric, HexToClaimGeneric")], None, ["claim or error"])

p("C16", "An issuer never gives two claims the same revocation nonce",
  "Over the life of an issuer, across any sequence of issuances, restarts and failures, and with concurrent callers, every claim successfully issued carries a nonce different from all others of that issuer. When nonces are exhausted issuance fails rather than reusing one, and a failed issuance leaves the claim's metadata as it was.",
  ["histories", "schedules", "crash_points", "fault_sequences"], "all interleavings of two issuers' calls, all positions of a restart, all counter values",
  "The tests issue a few claims in sequence in one process.",
  ["identity/issuer/noncegen.go", "identity/issuer/issuer.go"], [("persistent counter", "identity/issuer/noncegen.go"), ("issuer lock", "identity/issuer/issuer.go:IssueClaim")],
  [("nonce counter", "next nonce, kept in storage", "identity/issuer/noncegen.go")], ["nonces of issued claims"])

p("C17", "Revoking a claim makes exactly that claim revoked",
  "After a claim's revocation the issuer's revocation tree holds the claim's nonce and no other, so that once that state is published a non-revocation proof is obtainable for every claim but that one. Distinct nonces and versions occupy distinct positions in the tree, and revoking what was never issued or is already revoked is an error that changes nothing.",
  ["inputs", "histories"], "all nonces and versions, all pairs of claims", "The tests revoke one claim.",
  ["core/claims/revocationrootsleafs.go", "identity/issuer/issuer.go"], [("revocation leaf layout", "core/claims/revocationrootsleafs.go"), ("revocation", "identity/issuer/issuer.go:RevokeClaim")], None, ["revocation tree after the operation"])

p("C18", "Issuer state publication follows the chain and never loses a state",
  "A state becomes the confirmed state only when the chain holds it as deep as configured; while a published state is pending no other state is published, and publishing when nothing changed does nothing. After any failure or restart the issuer's view can still be synchronised, every recorded state can be opened as the trees it was computed from, and an issuer restricted to its genesis refuses to publish.",
  ["histories", "fault_sequences", "crash_points"], "all sequences of issue, publish, synchronise and restart within the bound, with failures of storage, chain and off-chain writer",
  "The tests follow one successful history with a mocked chain.",
  ["identity/issuer/issuer.go"], [("pending and on-chain state", "identity/issuer/issuer.go:PublishState, SyncIdenStatePublic"), ("state list", "identity/issuer/issuer.go:idenStateList")],
  [("pending state", "state sent to the chain and not yet confirmed", "identity/issuer/issuer.go:idenStateDataOnChain, idenStatePending")], ["state published and confirmed", "errors"])

p("C19", "Credentials an issuer hands out are accepted by a verifier",
  "For every claim in a published, non-revoked state of an issuer, the existence credential the issuer generates, and the validity credential a holder derives from it and the published public data, are accepted by a verifier that sees the same chain. For a claim not in the published state, or revoked, the issuer or holder reports an error and no credential.",
  ["histories", "inputs"], "all claims, issuance histories within the bound", "The tests exercise one history per case.",
  ["identity/issuer/issuer.go", "identity/holder/holder.go", "components/verifier/verifier.go", "core/proof/proof.go"], [("existence credential", "identity/issuer/issuer.go:GenCredentialExistence"), ("validity credential", "identity/holder/holder.go:HolderGetCredentialValidity"), ("verification", "components/verifier/verifier.go")], None, ["verifier verdict"])

p("C20", "The verifier accepts only credentials backed by the chain",
  "A credential is accepted only if the issuer's on-chain history contains the exact state its roots hash to at the block and time it names, the claim is in the claims tree of that state, and for validity the claim's nonce is absent from the revocation tree of the newer state. Changing the claim, a root, the identity, the block data or a proof of an accepted credential makes it rejected, and no malformed credential crashes the verifier.",
  ["inputs"], "all credentials built from arbitrary field values and proofs within the bounds, all chain contents",
  "The verifier's tests need a network and are not run; and no finite set of tampered credentials settles soundness.",
  ["components/verifier/verifier.go", "core/proof/proof.go", "components/idenpubonchain/idenpubonchain.go"], [("state recomputed from roots and compared with chain", "components/verifier/verifier.go"), ("Merkle proof verification", "merkletree/merkletree.go:VerifyProof")], None, ["verifier verdict"])

p("C21", "Expired claims and stale credentials are refused",
  "At verification a claim whose expiration is in the past is refused, and a validity credential is refused when the state it proves against is older than the verifier's freshness limit and is not the issuer's current one, in all cases including the exact boundary and extreme time values. A claim without expiration never expires.",
  ["inputs"], "all times, expirations and freshness limits", "Tests run with the current clock and generous limits.",
  ["components/verifier/verifier.go"], [("freshness and expiration comparison", "components/verifier/verifier.go")], None, ["verifier verdict"])

p("C22", "Key-value storage is a prefix-isolated transactional map",
  "Both storages behave as a map: a committed write is what a later read returns, uncommitted or closed transactions have no effect outside themselves, a transaction sees its own writes, and merging one transaction into another applies its writes. A view with a prefix sees exactly the keys written under that prefix, and listing or iterating returns each such key once in byte order up to the limit; the summary of a storage counts its keys.",
  ["histories", "inputs"], "all sequences of operations within the bound over arbitrary keys, values and prefixes", "The tests write a few constant keys.",
  ["db/memory.go", "db/leveldb.go", "db/kvmap.go", "db/utils.go"], [("key concatenation", "db/utils.go:concat"), ("transaction overlay", "db/memory.go, db/leveldb.go:Tx"), ("ordered iteration", "db/memory.go:Iterate")], None, ["reads, lists"])

p("C23", "Persistent values and lists return what was stored in order",
  "A persistent counter returns the last value set; a persistent list returns, for every position and every key, the entry appended there, its length is the number of appends, and values of different names, and lists of names of which neither begins the other, never interfere. Stored JSON records load back equal.",
  ["histories", "inputs"], "all sequences of appends and reads within the bound, all keys and values, all list names", "The tests use one list with constant keys.",
  ["db/storageutils.go"], [("length, key and position records", "db/storageutils.go:StorageList"), ("fixed-width counter", "db/storageutils.go:StorageValue")], None, ["values read"])

p("C24", "A login nonce is honoured once, before its expiry, and never after",
  "A nonce that was added is found until it expires or is consumed, consuming succeeds at most once even with concurrent callers, and an expired nonce is never found or consumed. Cleaning up removes the expired nonces and no live one, and adding a nonce that is still present is refused.",
  ["histories", "schedules", "inputs"], "all sequences of add, search, consume, clean-up and passing time within the bound, and interleavings of two callers",
  "The tests follow one sequence with sleeps.", ["utils/noncedb/nonce_db.go"],
  [("map and expiry queue", "utils/noncedb/nonce_db.go"), ("lock", "utils/noncedb/nonce_db.go")], [("nonce map and heap", "live nonces by value and by expiry", "utils/noncedb/nonce_db.go")], ["results of search and consume"])

p("C25", "The key store returns only what the right passphrase protects",
  "A key imported or created under a passphrase is unlocked by that passphrase and by no other that derives a different key, survives closing and reopening of the store, and signing works exactly while the key is unlocked. A failed operation leaves the stored keys unchanged. A key file is open in one store at a time",
  ["inputs", "histories", "fault_sequences"], "all passphrases and keys, sequences of operations within the bound, write failures", "The tests use one passphrase and no faults.",
  ["keystore/keystore.go"], [("authenticated encryption of each key", "keystore/keystore.go:EncryptKey, DecryptKey"), ("unlocked key cache", "keystore/keystore.go")], None, ["unlock and sign results"])

p("C26", "Signatures cover the exact prefix, time and message and nothing else",
  "A signature made over a message, time and prefix verifies for these and the signing key, and for no other message or time with that prefix, no other key and no altered signature. Signing and verifying never alter the caller's buffers or each other's results, also when run concurrently.",
  ["inputs", "schedules"], "all messages, prefixes, dates", "The tests sign one message.",
  ["components/idensigner/idensigner.go", "crypto/signatures.go", "keystore/keystore.go"], [("framing of prefix, date and message", "keystore/keystore.go:Sign, VerifySignature, components/idensigner/idensigner.go, crypto/signatures.go, identity/issuer/issuer.go:SignBinary, SignState")], None, ["verification verdict"])

p("C27", "The off-chain publisher serves the latest and any cached state",
  "After any sequence of publications the publisher returns the most recent public data when asked for the latest, the exact data of an earlier state while it is among the most recent kept, and an error otherwise. A restart with the same storage serves the same data, and failed publications change nothing that was served. The in-process publisher likewise serves every state with the trees as they were when it was published.",
  ["histories", "crash_points"], "all sequences of publications within the bound, all cache sizes from 1, restarts at any point", "The tests publish a few states with one cache size that hides index arithmetic.",
  ["components/idenpuboffchain/writerhttp/writerhttp.go"], [("ring of cached states", "components/idenpuboffchain/writerhttp/writerhttp.go")], [("cache index", "slot of the latest state", "components/idenpuboffchain/writerhttp/writerhttp.go")], ["data served"])

p("C28", "Public off-chain data is accepted only if it matches the state",
  "Public data received off-chain is accepted only when its trees' roots hash to the identity state they are for, and then it yields exactly the trees the issuer published. Malformed or inconsistent data is refused with an error and never crashes the reader.",
  ["inputs"], "all received data within the bounds", "The tests read back data they have just written.",
  ["components/idenpuboffchain/idenpuboffchain.go", "components/idenpuboffchain/readerhttp/readerhttp.go", "identity/holder/holder.go"], [("import of trees and root comparison", "components/idenpuboffchain/idenpuboffchain.go:NewPublicDataFromBlobs")], None, ["public data or error"])

p("C29", "On-chain state queries return a state only for an exact match",
  "Querying the state of an identity by block or time returns the recorded state for it and its block and time; when the chain holds none, or the contract answers for another block or time, the query reports that it was not found. Publishing sends exactly the state, proof and identity it was given.",
  ["inputs"], "all contract answers", "Tests need a live node and are skipped or use mocks above this layer.",
  ["components/idenpubonchain/idenpubonchain.go", "eth/client.go"], [("zero-state and block comparison", "components/idenpubonchain/idenpubonchain.go")], None, ["returned state data or error"])

p("C30", "Proof inputs, outputs and circuit files are converted without loss",
  "Public signals and proof elements converted to their contract or JSON form denote the same numbers, and read back equal. A downloaded circuit file is used only if its hash equals the expected one.",
  ["inputs"], "all numbers and file contents within the bound", "The tests use one proof.",
  ["utils/zk/zk.go"], [("JSON of public signals", "utils/zk/zk.go:PubSignals"), ("hash check of files", "utils/zk/zk.go")], None, ["converted values"])

p("C31", "Byte, hex and base64 helpers round-trip and never crash",
  "Encoding then decoding with the hexadecimal, base64, endianness and integer helpers returns the original value for every input, bit set and test agree for every position, and decoding arbitrary text returns a value or an error but never panics.",
  ["inputs"], "all byte strings and texts within the length bound, all bit positions", "The tests use a few constants.",
  ["common/common.go", "merkletree/utils.go", "merkletree/merkletree.go"], [("hex and base64 helpers", "common/common.go"), ("bit helpers", "common/common.go:SetBit, TestBit, SetBitBigEndian, TestBitBigEndian")], None, ["decoded values"])

p("C32", "Components that are shared by threads are free of data races",
  "Any two operations of one issuer, of one storage or the trees kept in it, of one nonce database, or of one publisher or in-process chain may run at the same time: their accesses to a common variable, at least one of them a write, are always ordered by a lock or another synchronisation.",
  ["schedules", "inputs"], "all pairs of operations, both orders of every critical section, all inputs", "The tests use one thread, and a race shows only under a schedule that they do not produce.",
  ["identity/issuer/issuer.go", "identity/issuer/noncegen.go", "merkletree/merkletree.go", "db/memory.go", "utils/noncedb/nonce_db.go", "components/idenpuboffchain/writerhttp/writerhttp.go", "components/idenpuboffchain/local/local.go", "components/idenpubonchain/local/local.go"],
  [("locks of each component", "identity/issuer/issuer.go:Issuer.rw, merkletree/merkletree.go:MerkleTree, db/memory.go:MemoryStorage")], [("fields guarded by the locks", "issuer state, tree root, storage map, nonce map and queue, cache index", "identity/issuer/issuer.go, merkletree/merkletree.go, db/memory.go")], ["pairs of conflicting accesses that nothing orders"])

p("C33", "Key stores and circuit files are shared without data races",
  "Any two operations of one key store, in memory or in a file, or of one set of zero-knowledge circuit files may run at the same time: their accesses to a common variable, at least one of them a write, are always ordered by a lock or another synchronisation.",
  ["schedules", "inputs"], "all pairs of operations, both orders of every critical section", "The tests use one thread, and a race shows only under a schedule that they do not produce.",
  ["keystore/keystore.go", "utils/zk/zk.go"],
  [("lock of the key store", "keystore/keystore.go:KeyStore.rw"), ("lock of the circuit files", "utils/zk/zk.go:ZkFiles.m")], [("unlocked key cache, encrypted keys, loaded files", "guarded by one lock each", "keystore/keystore.go, utils/zk/zk.go")], ["pairs of conflicting accesses that nothing orders"])

p("C34", "Operations on an issuer at once have the effect of one after the other",
  "When two operations of one issuer run at the same time - issuing, revoking, publishing, synchronising, asking for the state or for a credential - their answers and all that is left behind (state, pending and confirmed state, transactions sent, data published) are those of running them in one order or the other. A state or a credential asked for meanwhile is one that the issuer had or gave at some moment.",
  ["schedules", "inputs"], "all pairs of operations at several stages of a history, all interleavings with a bounded number of preemptions, arbitrary claims", "The tests use one thread.",
  ["identity/issuer/issuer.go"],
  [("lock of the issuer held over each whole operation", "identity/issuer/issuer.go:Issuer.rw")], [("trees, stored states, pending state, sent transactions", "one consistent history", "identity/issuer/issuer.go")], ["answers of the operations", "state, transactions and published data afterwards"])

p("C35", "Credentials and public data survive being sent as JSON",
  "A credential of existence or validity, and the public data and blobs of an identity, that are written as JSON and read again are equal to the original in every field, also when they are read into a value that was used before. Whatever is read, an entry's hashes are those of its data, and a text that is not one is an error and never a panic.",
  ["inputs"], "all values of the fields, proofs of every shape within the bound, arbitrary short texts of the fields", "The tests send a few credentials, each into a new value.",
  ["core/proof/proof.go", "components/idenpuboffchain/idenpuboffchain.go", "merkletree/utils.go", "merkletree/merkletree.go", "core/id.go"],
  [("text forms of hashes, entries, proofs and identifiers", "merkletree/merkletree.go:Entry.UnmarshalText, Hash.UnmarshalText, Proof; core/id.go")], None, ["the value read"])

p("C36", "The in-process chain follows the rules of the contract",
  "The in-process chain gives for an identity the last state that was synchronised, and by block or time the state recorded there, each with its block and time, and finds no other. An identity is initialised once, updated only once it has a state, and each change needs a valid proof from the state before it, pending ones included, for exactly that identity and new state; what is pending does not change with the caller's values. A transaction is as deep as the blocks that came since it, and has what an issuer needs to store it.",
  ["histories", "inputs"], "all histories of two identities within the bound, all states, blocks and times", "The tests follow one history of one identity.",
  ["components/idenpubonchain/local/local.go"],
  [("pending and recorded states", "components/idenpubonchain/local/local.go:InitState, SetState, Sync"), ("proof of a change", "components/idenpubonchain/local/local.go:verifyZKP")], [("pending changes and history of each identity", "what the contract would hold", "components/idenpubonchain/local/local.go:IdenPubOnChain")], ["states found", "errors", "values proofs are verified for", "depth of transactions"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
            f.write(json.dumps(x) + "\n")
    print(len(P))
