# What each check assures within its bounds (used by manifest.py).
BASE = " Trusted: the SSA interpreter and its models of the Go library and big-integer code, z3, and the abstraction of Poseidon as an injective function of its inputs whose output bits are arbitrary; counterexamples are confirmed by running the real code."
def N(s): return s + BASE
NOTES = {
 "C01": N("All contents of up to 3-4 entries in trees of up to 4-6 levels, plus one entry pushed to the last level and all interleavings of two inserters at lock and storage operations."),
 "C02": N("All contents and orders of up to 3 entries, all pairs of sets within the bounds."),
 "C03": N("All trees of up to 3 entries of 4 levels, every root in their history, every queried index."),
 "C04": N("All trees of up to 3 entries and all proofs of up to 4 siblings."),
 "C05": N("All byte strings of up to the length bound given in the evidence and all proofs of the bounded trees."),
 "C06": N("All trees of up to 3 entries, truncation points of their dumps (every 5th in the quick tier, all in the thorough one) and arbitrary short records; a dump taken while an entry is added, all interleavings with up to 2 preemptions; writers that fail at any quarter or eighth of a dump."),
 "C07": N("All histories of up to 3 inserts, every earlier root, every queried index."),
 "C08": N("All histories of up to 3 inserts with one storage fault at any operation, reopened at every point."),
 "C09": N("All trees of up to 3 entries, every queried entry, current and earlier roots."),
}
NOTES.update({
 "C10": N("All types, genesis bytes, single-byte corruptions and byte strings of up to 33 bytes; base58 itself is an opaque injective encoding, text that no identifier encodes to is sampled."),
 "C11": N("All pairs of triples of roots; genesis trees of 3 (thorough: 6) levels with a key claim of full-length coordinates and up to one further claim."),
 "C12": N("All field values of the three claim types and the two leaf types; of a key's two coordinates one at a time ranges over lengths below 32 bytes."),
 "C13": N("All headers, metadata and entries, no bound on the values; JSON forms of all metadata with valid subject identifiers."),
 "C14": N("All pairs of claims of the three types (full-length key coordinates) and all generic claims, in a tree of 4 levels."),
 "C15": N("All entries of arbitrary bytes, texts of whole entries, and arbitrary texts of up to 6 (thorough: 10) bytes."),
 "C22": N("All sequences of 2 (thorough: 3) operations over arbitrary keys and prefixes of up to 2 bytes, in memory and over goleveldb (itself modelled as a transactional map)."),
 "C23": N("All sequences of 2 (thorough: 3) appends with arbitrary names, keys and values of up to 2 bytes, and appends to a list of arbitrary length."),
 "C24": N("All sequences of 4 (thorough: 5) operations on two nonces with arbitrary lifetimes and passing time, clean-up of 3 (thorough: 4) nonces, and all interleavings of two consumers at lock and map operations with up to 2 preemptions."),
 "C31": N("All byte strings and texts up to the bound given in the evidence."),
})
NOTES.update({
 "C16": N("Sequences of up to 3 (thorough: 4) issuances with one storage fault and one restart at any point, all interleavings of two issuers with up to 2 preemptions, all values of the counter; claims are placed at chosen leaves, the chain and the off-chain publisher are models."),
 "C20": N("Existence and validity credentials with arbitrary claim data, roots, block data and proofs of up to 2 siblings against a chain holding arbitrary records; the chain client is a model that answers as the contract does."),
 "C21": N("All clock values, expirations, freshness limits and block times representable in 64 bits, and credentials claiming arbitrary times and blocks, the time package executed from source; zero-knowledge proofs are a model whose verdict is a relation of files, proof and inputs."),
})
NOTES.update({
 "C17": N("All nonces and versions for the leaves and trees of two; issuers of 2 (thorough: 3) arbitrary claims with as many revocations of issued, revoked or foreign claims and restarts; claims are placed at chosen leaves, chain and off-chain publisher are models."),
 "C18": N("A first publication followed by 4 (thorough: 6) operations without failure, or by one failure at any storage, chain or off-chain operation of a publication or synchronisation and 2-3 further operations (thorough: one more), then a recovery; zero-knowledge proofs and Ethereum transactions are models, the chain follows the contract's rules."),
 "C19": N("Histories of two publications at any stage with up to 3 arbitrary claims, revocations and a restart; the inputs of the circuit are checked as Merkle proofs, the circuit itself is not."),
})
NOTES.update({
 "C27": N("Caches of 1 to 4 states with up to twice as many publications and one more, one storage fault and one restart at any point; caches of 8 sizes (thorough: all up to 255) filled past their end; trees of up to 2 arbitrary entries; all interleavings of two publications or a publication and a reader with up to 2 preemptions."),
 "C28": N("Trees of up to 2 arbitrary entries, every root arbitrary, any one record of a dump missing, renamed, altered, doubled or added with arbitrary contents; a holder handed arbitrary public data; the HTTP client and the JSON on the wire are a model."),
})
NOTES.update({
 "C29": N("Any answer of the contract (block and time of 64 bits, states of 0, 1, 2, 31 and 32 bytes), any identity, block or time asked for, any failure of the node, and up to 6 polls for a receipt; the generated binding is executed down to the call by name with its parameters, which the node, a model, records."),
})
NOTES.update({
 "C30": N("Proof points of arbitrary coordinates, up to 3 public signals (one of 256 bits, the others of 8), texts of up to 4 bytes, up to 3 inputs of 254 bits; files of up to 3 arbitrary bytes, in any of the formats, there already or served by a server that may fail, answer with an error or cut the file short; SHA-256 is an injective function, the file system and the server are models (real ones in a replay), the parsers of keys only tell what they were given."),
})
NOTES.update({
 "C25": N("All passphrases of up to 2 bytes, all single-byte alterations of an encrypted record, sequences of 3 (thorough: 4) operations on two keys in memory or in a file, with one failing write or full disk at any point, openings and closings of one file by three stores, a closing with one or two concurrent openings (2 preemptions), two concurrent users; the curve, scrypt and secretbox are models (a signature cannot be forged, a box opens with its key only), the real ones run in a replay."),
 "C26": N("Prefixes of 0, 1, 22 and 53 bytes, all dates, messages of up to 63 bytes (arbitrary at their ends or entirely, up to 2-3 bytes), all field elements, all single-byte alterations of a signature, two concurrent signers while the clock ticks; signatures are a model that cannot be forged, Keccak and Poseidon are injective functions."),
})
NOTES.update({
 "C32": N("Every pair of operations on one component, in both orders of their critical sections (a happens-before analysis with vector clocks, so preemptions elsewhere add nothing), on symbolic entries, values and times; a race is reported once the real code, run under Go's race detector over its schedules, reports one between two accesses of go-iden3 itself. Chain, off-chain publisher and proof generation of the issuer are models."),
 "C33": N("Every pair of operations on one key store, in memory or in a file, with the key locked or unlocked, and on one set of circuit files, loaded or not, in both orders of their critical sections; a race is reported once the real code under Go's race detector reports one. Curve, scrypt, secretbox, server, file system and parsers are models (the real ones run in a replay, but for the parsers)."),
})
NOTES.update({
 "C34": N("All pairs of 11 operations after a first publication, before its confirmation or after it with a further claim issued (thorough: also in between), interleaved at every lock with one preemption; a state asked for during two operations and a credential asked for during a revocation, publication and confirmation with two preemptions; claims arbitrary in 8 bytes of index and value, at chosen leaves; chain, off-chain publisher and proof generation are models."),
})
NOTES.update({
 "C35": N("All field values (identifiers with a valid checksum, addresses of 2 arbitrary bytes), proofs of the three kinds with up to 2 siblings and a gap, blobs of one tree each; short arbitrary texts as received."),
 "C36": N("All histories of 4 (thorough: 5) operations of two identities with arbitrary states and time and block steps below 256, one wrong proof; depth over all 32-bit blocks and 16-bit distances. The proof verifier is a model that records what it is asked."),
})
REASONS = {}
