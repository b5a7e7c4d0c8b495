From 15e2ec7175bb2ed7fb95478509cac4929cc001d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:29 +0000
Subject: [PATCH 01/50] fix: reject serialized proofs deeper than the siblings
 bitmap

---
 merkletree/merkletree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index b3d2dcf..aaefe99 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -788,6 +788,9 @@ func NewProofFromBytes(bs []byte) (*Proof, error) {
 	}
 	p.depth = uint(bs[1])
 	copy(p.notempties[:], bs[proofFlagsLen:ElemBytesLen])
+	if p.depth > uint(len(p.notempties)*8) {
+		return nil, ErrInvalidProofBytes
+	}
 	siblingBytes := bs[ElemBytesLen:]
 	sibIdx := 0
 	for i := uint(0); i < p.depth; i++ {
-- 
2.43.0


From 6fbacbfd0177769670539f9b4169cc03681cf6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:30 +0000
Subject: [PATCH 02/50] fix: store the root of an imported tree in the format
 NewMerkleTree reads

---
 merkletree/merkletree.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index aaefe99..943b996 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -678,6 +678,8 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 	defer mt.Unlock()
 
 	r := bufio.NewReader(i)
+	// The dump contains the root key without the DB entry type header.
+	var root []byte
 	for {
 		k, v, err := deserializeKV(r)
 		if err == io.EOF {
@@ -685,19 +687,26 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 		} else if err != nil {
 			return err
 		}
+		if bytes.Equal(k, rootNodeValue) {
+			root = v
+			continue
+		}
 		tx.Put(k, v)
 	}
 
-	v, err := tx.Get(rootNodeValue)
-	if err != nil {
-		return err
+	if root == nil {
+		return db.ErrNotFound
+	}
+	if len(root) != ElemBytesLen {
+		return ErrInvalidDBValue
 	}
+	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, root)
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
 	mt.rootKey = &Hash{}
-	copy(mt.rootKey[:], v)
+	copy(mt.rootKey[:], root)
 
 	return nil
 }
-- 
2.43.0


From 62a1605b11719c2c327a90899b352d848affc552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:29 +0000
Subject: [PATCH 03/50] fix: keep the root of a merkle tree when committing an
 added entry fails

---
 merkletree/merkletree.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 943b996..5f3a649 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -476,12 +476,13 @@ func (mt *MerkleTree) AddEntry(e *Entry) error {
 	if err != nil {
 		return err
 	}
-	mt.rootKey = newRootKey
-	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, mt.rootKey[:])
+	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, newRootKey[:])
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	// The tree only moves on to the new root once it has been stored.
+	mt.rootKey = newRootKey
 	return nil
 }
 
-- 
2.43.0


From fc47f31113a24229c5ec9e912c147cbad2d7b446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:29 +0000
Subject: [PATCH 04/50] fix: open a merkle tree as empty only when its storage
 holds no root

---
 merkletree/merkletree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 5f3a649..912bf3b 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -229,6 +229,9 @@ type MerkleTree struct {
 func NewMerkleTree(storage db.Storage, maxLevels int) (*MerkleTree, error) {
 	mt := MerkleTree{storage: storage, maxLevels: maxLevels, writable: true}
 	_, gettedRoot, err := mt.dbGet(rootNodeValue)
+	if err != nil && err != db.ErrNotFound {
+		return nil, err
+	}
 	if err != nil {
 		tx, err := mt.storage.NewTx()
 		if err != nil {
-- 
2.43.0


From 7ff2338f116497b974843363700421f6cf1a005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:29 +0000
Subject: [PATCH 05/50] fix: compare all the elements in merkletree Data.Equal

---
 merkletree/merkletree.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 912bf3b..2aa4b10 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -78,8 +78,12 @@ func (d *Data) Bytes() (b [ElemBytesLen * DataLen]byte) {
 }
 
 func (d1 *Data) Equal(d2 *Data) bool {
-	return bytes.Equal(d1[0][:], d2[0][:]) && bytes.Equal(d1[1][:], d2[1][:]) &&
-		bytes.Equal(d1[2][:], d2[2][:]) && bytes.Equal(d1[3][:], d2[3][:])
+	for i := 0; i < DataLen; i++ {
+		if !bytes.Equal(d1[i][:], d2[i][:]) {
+			return false
+		}
+	}
+	return true
 }
 
 func (d Data) MarshalText() ([]byte, error) {
-- 
2.43.0


From 89635007fb2c9a3c45553ee34eedab0668dcdb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:12 +0000
Subject: [PATCH 06/50] fix: decode short base64 texts instead of panicking

---
 common/common.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/common/common.go b/common/common.go
index 5c531c4..e315b76 100644
--- a/common/common.go
+++ b/common/common.go
@@ -19,14 +19,7 @@ func Base64ToBytes(base64String string) ([]byte, error) {
 // Base64Decode decodes a string in base64 with optional padding into an array
 // of bytes.
 func Base64Decode(b64 string) ([]byte, error) {
-	l := len(b64)
-	if b64[l-3] == '=' {
-		b64 = b64[:l-3]
-	} else if b64[l-2] == '=' {
-		b64 = b64[:l-2]
-	} else if b64[l-1] == '=' {
-		b64 = b64[:l-1]
-	}
+	b64 = strings.TrimRight(b64, "=")
 	return base64.RawStdEncoding.DecodeString(b64)
 }
 
-- 
2.43.0


From b997dc5d7c876e654b2b82fd5f51d58c4d2a6643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:46 +0000
Subject: [PATCH 07/50] fix: read the subject position of a claim header as one
 bit

---
 core/claims/claim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/claims/claim.go b/core/claims/claim.go
index e8628fa..ac48ccd 100644
--- a/core/claims/claim.go
+++ b/core/claims/claim.go
@@ -188,7 +188,7 @@ func (c *ClaimHeader) Unmarshal(e *merkletree.Entry) {
 	copy(c.Type[:], index[0][:ClaimTypeLen])
 	flags0 := index[0][ClaimTypeLen]
 	c.Subject = ClaimSubject(flags0 & 0b00000011)
-	c.SubjectPos = ClaimSubjectPos(flags0 & (1 << 2))
+	c.SubjectPos = ClaimSubjectPos((flags0 >> 2) & 1)
 	c.Expiration = byte2bool(flags0 & (1 << 3))
 	c.Version = byte2bool(flags0 & (1 << 4))
 }
-- 
2.43.0


From 8930970a287f164fdcb39915c00b22301c5289ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:46 +0000
Subject: [PATCH 08/50] fix: refuse claim metadata in JSON that announces a
 subject without its ID

---
 core/claims/claim.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/claims/claim.go b/core/claims/claim.go
index ac48ccd..606ac9f 100644
--- a/core/claims/claim.go
+++ b/core/claims/claim.go
@@ -320,6 +320,9 @@ func (m *Metadata) UnmarshalJSON(b []byte) error {
 		return err
 	}
 	if m.header.Subject != ClaimSubjectSelf {
+		if metadata.ID == nil {
+			return fmt.Errorf("claim metadata with a subject is missing its ID")
+		}
 		m.Subject = metadata.ID
 	}
 	if m.header.Expiration {
-- 
2.43.0


From 26cbf6c27d1e79ba4a1c2723da773812f855dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:46 +0000
Subject: [PATCH 09/50] fix: keep the unused flag bits of an entry when writing
 a claim header

---
 core/claims/claim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/claims/claim.go b/core/claims/claim.go
index 606ac9f..5ae8cf9 100644
--- a/core/claims/claim.go
+++ b/core/claims/claim.go
@@ -175,7 +175,7 @@ func (c ClaimHeader) Marshal(e *merkletree.Entry) {
 	index := e.Index()
 	copy(index[0][:ClaimTypeLen], c.Type[:])
 	flags0 := &index[0][ClaimTypeLen]
-	*flags0 = 0
+	*flags0 &= 0b11100000 // Keep the unused flag bits
 	*flags0 |= byte(c.Subject)
 	*flags0 |= byte(c.SubjectPos) << 2
 	*flags0 |= bool2byte(c.Expiration) << 3
-- 
2.43.0


From a0fb0be37f6169143c06ae9f74cf60b30fd913ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:46 +0000
Subject: [PATCH 10/50] fix: read the metadata of a generic claim parsed from
 text

---
 core/claims/utils.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/claims/utils.go b/core/claims/utils.go
index 757d865..333167c 100644
--- a/core/claims/utils.go
+++ b/core/claims/utils.go
@@ -38,10 +38,7 @@ func HexToClaimGeneric(h string) (ClaimGeneric, error) {
 	entry := merkletree.Entry{
 		Data: *data,
 	}
-	entrier := ClaimGeneric{
-		entry: &entry,
-	}
-	return entrier, nil
+	return *NewClaimGeneric(&entry), nil
 }
 
 func HexArrayToClaimGenericArray(arrH []string) ([]ClaimGeneric, error) {
-- 
2.43.0


From a355e61f942ff4ef897a247ee485696b6cfd49d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:46 +0000
Subject: [PATCH 11/50] fix: build a new entry for a generic claim instead of
 changing the given one

---
 core/claims/utils.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/claims/utils.go b/core/claims/utils.go
index 333167c..143ecdf 100644
--- a/core/claims/utils.go
+++ b/core/claims/utils.go
@@ -19,8 +19,10 @@ func NewClaimGeneric(entry *merkletree.Entry) *ClaimGeneric {
 }
 
 func (c *ClaimGeneric) Entry() *merkletree.Entry {
-	c.metadata.Marshal(c.entry)
-	return c.entry
+	// A new entry, because the hashes cached in c.entry don't follow the metadata
+	e := &merkletree.Entry{Data: c.entry.Data}
+	c.metadata.Marshal(e)
+	return e
 }
 
 func (c *ClaimGeneric) Metadata() *Metadata {
-- 
2.43.0


From 91327e3e9223d7a14dc575cc2b6fbbcd726f119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:01 +0000
Subject: [PATCH 12/50] fix: keep copies of the values in storage transactions
 and the memory storage

---
 db/kvmap.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/db/kvmap.go b/db/kvmap.go
index b36dddd..5feb4e7 100644
--- a/db/kvmap.go
+++ b/db/kvmap.go
@@ -8,8 +8,11 @@ type kvMap map[[sha256.Size]byte]KV
 
 func (m kvMap) Get(k []byte) ([]byte, bool) {
 	v, ok := m[sha256.Sum256(k)]
-	return v.V, ok
+	if !ok {
+		return nil, false
+	}
+	return clone(v.V), true
 }
 func (m kvMap) Put(k, v []byte) {
-	m[sha256.Sum256(k)] = KV{k, v}
+	m[sha256.Sum256(k)] = KV{k, clone(v)}
 }
-- 
2.43.0


From ff850e802268a12847644750f210dc05150513b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:29 +0000
Subject: [PATCH 13/50] fix: give the keys of a storage list buffers of their
 own

---
 db/storageutils.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/db/storageutils.go b/db/storageutils.go
index a1d131b..9da143a 100644
--- a/db/storageutils.go
+++ b/db/storageutils.go
@@ -44,9 +44,9 @@ type StorageList struct {
 // the dbPrefix in a Storage.
 func NewStorageList(dbPrefix []byte) *StorageList {
 	return &StorageList{
-		length:            NewStorageValue(append(dbPrefix, []byte("len")...)),
-		dbPrefixList:      append(dbPrefix, []byte("list:")...),
-		dbPrefixListByIdx: append(dbPrefix, []byte("byidx:")...),
+		length:            NewStorageValue(concat(dbPrefix, []byte("len"))),
+		dbPrefixList:      concat(dbPrefix, []byte("list:")),
+		dbPrefixListByIdx: concat(dbPrefix, []byte("byidx:")),
 	}
 }
 
@@ -67,8 +67,8 @@ func (sl *StorageList) Append(tx Tx, key []byte, value interface{}) error {
 	}
 	var idxBytes [4]byte
 	binary.LittleEndian.PutUint32(idxBytes[:], idx)
-	tx.Put(append(sl.dbPrefixList, key...), valueJSON)
-	tx.Put(append(sl.dbPrefixListByIdx, idxBytes[:]...), key)
+	tx.Put(concat(sl.dbPrefixList, key), valueJSON)
+	tx.Put(concat(sl.dbPrefixListByIdx, idxBytes[:]), key)
 	sl.length.Set(tx, idx+1)
 	return nil
 }
@@ -77,7 +77,7 @@ func (sl *StorageList) Append(tx Tx, key []byte, value interface{}) error {
 func (sl *StorageList) GetByIdx(tx Tx, idx uint32, value interface{}) ([]byte, error) {
 	var idxBytes [4]byte
 	binary.LittleEndian.PutUint32(idxBytes[:], idx)
-	key, err := tx.Get(append(sl.dbPrefixListByIdx, idxBytes[:]...))
+	key, err := tx.Get(concat(sl.dbPrefixListByIdx, idxBytes[:]))
 	if err != nil {
 		return nil, err
 	}
@@ -87,7 +87,7 @@ func (sl *StorageList) GetByIdx(tx Tx, idx uint32, value interface{}) ([]byte, e
 
 // GetByIdx returns the value given the key of the StorageList in an open db transaction.
 func (sl *StorageList) Get(tx Tx, key []byte, value interface{}) error {
-	valueJSON, err := tx.Get(append(sl.dbPrefixList, key...))
+	valueJSON, err := tx.Get(concat(sl.dbPrefixList, key))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3e9eff9a5f6ebd1f4ae6ef5be477e980bfae2e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 14/50] fix: keep a live login nonce when an expired namesake
 is cleaned up

---
 utils/noncedb/nonce_db.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/noncedb/nonce_db.go b/utils/noncedb/nonce_db.go
index 06e29e2..815750c 100644
--- a/utils/noncedb/nonce_db.go
+++ b/utils/noncedb/nonce_db.go
@@ -186,7 +186,10 @@ func (ndb *NonceDb) DeleteOld() {
 		}
 		if nObj.Expiration < now {
 			ndb.noncesHeap.Pop()
-			delete(ndb.nonceObjsByNonce, nObj.Nonce)
+			// The nonce may have been consumed and added again
+			if ndb.nonceObjsByNonce[nObj.Nonce] == nObj {
+				delete(ndb.nonceObjsByNonce, nObj.Nonce)
+			}
 		} else {
 			break
 		}
-- 
2.43.0


From 78891ad98660a3da8f8570cad8541bf726111161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:08 +0000
Subject: [PATCH 15/50] fix: return an error for identity state roots outside
 the field given by others

---
 components/idenpuboffchain/idenpuboffchain.go |  5 ++++-
 components/verifier/verifier.go               | 10 ++++++++--
 core/id.go                                    | 18 +++++++++++++++---
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/components/idenpuboffchain/idenpuboffchain.go b/components/idenpuboffchain/idenpuboffchain.go
index b0a9f2d..19efbb2 100644
--- a/components/idenpuboffchain/idenpuboffchain.go
+++ b/components/idenpuboffchain/idenpuboffchain.go
@@ -72,8 +72,11 @@ func NewPublicDataFromBlobs(publicDataBlobs *PublicDataBlobs) (*PublicData, erro
 		return nil, fmt.Errorf("Imported roots tree root (%v) doesn't match the expected root (%v)",
 			rootsTree.RootKey(), publicDataBlobs.RootsTreeRoot)
 	}
-	idenState := core.IdenState(&publicDataBlobs.ClaimsTreeRoot,
+	idenState, err := core.CalcIdenState(&publicDataBlobs.ClaimsTreeRoot,
 		&publicDataBlobs.RevocationsTreeRoot, &publicDataBlobs.RootsTreeRoot)
+	if err != nil {
+		return nil, err
+	}
 	if !idenState.Equals(&publicDataBlobs.IdenState) {
 		return nil, ErrCalculatedIdenStateDoesntMatch
 	}
diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index f947ed2..2d5d512 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -69,7 +69,10 @@ func (v *Verifier) VerifyCredentialExistence(credExist *proof.CredentialExistenc
 	if err != nil {
 		return err
 	}
-	idenState := core.IdenState(claimsRoot, credExist.RevocationsTreeRoot, credExist.RootsTreeRoot)
+	idenState, err := core.CalcIdenState(claimsRoot, credExist.RevocationsTreeRoot, credExist.RootsTreeRoot)
+	if err != nil {
+		return err
+	}
 	if !idenState.Equals(credExist.IdenStateData.IdenState) {
 		return ErrCalculatedIdenStateDoesntMatch
 	}
@@ -149,7 +152,10 @@ func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity,
 	if err != nil {
 		return err
 	}
-	idenState := core.IdenState(credValid.ClaimsTreeRoot, revocationsTreeRoot, credValid.RootsTreeRoot)
+	idenState, err := core.CalcIdenState(credValid.ClaimsTreeRoot, revocationsTreeRoot, credValid.RootsTreeRoot)
+	if err != nil {
+		return err
+	}
 	if !idenState.Equals(credValid.IdenStateData.IdenState) {
 		return ErrCalculatedIdenStateDoesntMatch
 	}
diff --git a/core/id.go b/core/id.go
index d8968e5..22138c0 100644
--- a/core/id.go
+++ b/core/id.go
@@ -153,16 +153,28 @@ func IdGenesisFromIdenState(hash *merkletree.Hash) *ID {
 }
 
 // IdenState calculates the Identity State from the Claims Tree Root, Revocation Tree Root and Roots Tree Root.
+// It panics if any of the roots is not a field element: use CalcIdenState for
+// roots that come from somebody else.
 func IdenState(clr *merkletree.Hash, rer *merkletree.Hash, ror *merkletree.Hash) *merkletree.Hash {
+	idenState, err := CalcIdenState(clr, rer, ror)
+	if err != nil {
+		panic(err)
+	}
+	return idenState
+}
+
+// CalcIdenState is like IdenState, but returns an error if any of the roots is
+// not a field element.
+func CalcIdenState(clr *merkletree.Hash, rer *merkletree.Hash, ror *merkletree.Hash) (*merkletree.Hash, error) {
 	bi, err := merkletree.ElemBytesToPoseidonInput(merkletree.ElemBytes(*clr),
 		merkletree.ElemBytes(*rer),
 		merkletree.ElemBytes(*ror))
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 	idenState, err := poseidon.PoseidonHash(bi)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
-	return merkletree.NewHashFromBigInt(idenState)
+	return merkletree.NewHashFromBigInt(idenState), nil
 }
-- 
2.43.0


From 69f8e6f66fd672c59bb78db80c538fea4f83b83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 16/50] fix: refuse credentials that lack parts instead of
 panicking

---
 components/verifier/verifier.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index 2d5d512..cf63832 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -22,6 +22,7 @@ var (
 	ErrMtpExistence                   = fmt.Errorf("The Merkle Tree Proof is of existence")
 	ErrCalculatedIdenStateDoesntMatch = fmt.Errorf("Calculated IdenState doesn't match the one in the credential")
 	ErrClaimExpired                   = fmt.Errorf("Expired claim")
+	ErrIncompleteCredential           = fmt.Errorf("The credential lacks some of its parts")
 	ErrFailedVerifyZkProofCredential  = fmt.Errorf("failed verifing generated zk proof of credential")
 )
 
@@ -53,9 +54,20 @@ func NewWithTimeNow(idenPubOnChain idenpubonchain.IdenPubOnChainer, timeNow func
 	}
 }
 
+// completeExistence returns whether a credential of existence, which may have
+// been parsed from somebody else's JSON, has all its parts.
+func completeExistence(credExist *proof.CredentialExistence) bool {
+	return credExist != nil && credExist.Id != nil && credExist.IdenStateData.IdenState != nil &&
+		credExist.MtpClaim != nil && credExist.Claim != nil &&
+		credExist.RevocationsTreeRoot != nil && credExist.RootsTreeRoot != nil
+}
+
 // VerifyCredentialExistence verifies a credential of existence.  That is, that
 // the claim was issued by a particular identity.
 func (v *Verifier) VerifyCredentialExistence(credExist *proof.CredentialExistence) error {
+	if !completeExistence(credExist) {
+		return ErrIncompleteCredential
+	}
 	if !credExist.MtpClaim.Existence {
 		return ErrMtpNonExistence
 	}
@@ -118,6 +130,11 @@ func (v *Verifier) validateFreshness(id *core.ID, idenState *merkletree.Hash, bl
 // the claim was issued by a particular identity, and that it has not been
 // revoked passed the freshness time.
 func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity, freshness time.Duration) error {
+	if credValid == nil || !completeExistence(&credValid.CredentialExistence) ||
+		credValid.IdenStateData.IdenState == nil || credValid.MtpNotNonce == nil ||
+		credValid.ClaimsTreeRoot == nil || credValid.RootsTreeRoot == nil {
+		return ErrIncompleteCredential
+	}
 	// If the claim has an expiration date, check that it hasn't expired.
 	var metadata claims.Metadata
 	metadata.Unmarshal(credValid.CredentialExistence.Claim)
-- 
2.43.0


From 1daa2d3add0140027e3a7576f97335adae4ef2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 17/50] fix: do not take claims that expire in the far future
 as expired

---
 components/verifier/verifier.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index cf63832..135d996 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -139,8 +139,11 @@ func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity,
 	var metadata claims.Metadata
 	metadata.Unmarshal(credValid.CredentialExistence.Claim)
 	if metadata.Header().Expiration {
+		// The seconds are compared because time.Unix wraps around for
+		// expiration dates close to the maximum.
 		now := v.timeNow()
-		if time.Unix(metadata.Expiration, 0).Before(now) {
+		if metadata.Expiration < now.Unix() ||
+			(metadata.Expiration == now.Unix() && now.Nanosecond() > 0) {
 			return ErrClaimExpired
 		}
 	}
-- 
2.43.0


From 7862e56f3e3401de20a51ed6399926a8c1d66e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 18/50] fix: keep the metadata of a claim whose issuance fails

---
 identity/issuer/issuer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index dd80a2d..cb1e83b 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -597,9 +597,11 @@ func (is *Issuer) IssueClaim(claim claims.Claimer) error {
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	revNonce := claim.Metadata().RevNonce
 	claim.Metadata().RevNonce = nonce
 	err = is.claimsTree.AddClaim(claim)
 	if err != nil {
+		claim.Metadata().RevNonce = revNonce
 		return err
 	}
 	return nil
-- 
2.43.0


From a38f54564d2ae64a4d3a0828da6793c3ebc13d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 19/50] fix: do not panic when publishing a state finds no
 transaction

---
 identity/issuer/issuer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index cb1e83b..be92ec6 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -662,10 +662,10 @@ func (is *Issuer) PublishState() error {
 	idenState, idenStateTreeRoots := is.state()
 
 	tx0, err := is.storage.NewTx() // Read only Tx
-	defer tx0.Close()
 	if err != nil {
 		return err
 	}
+	defer tx0.Close()
 	idenStateLast, idenStateTreeRootsLast, err := is.getIdenStateByIdx(tx0, -1)
 	if err != nil {
 		return err
-- 
2.43.0


From f6bb782899d358455745f3fdc21bfc7e370abac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 20/50] fix: publish a state again after a failure past the
 update of the roots tree

---
 identity/issuer/issuer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index be92ec6..806da20 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -684,7 +684,9 @@ func (is *Issuer) PublishState() error {
 		// If the ClaimsTreeRoot has changed (claims have been added), add the
 		// ClaimsTreeRoot to the RootsTree.
 		if !idenStateTreeRoots.ClaimsTreeRoot.Equals(idenStateTreeRootsLast.ClaimsTreeRoot) {
-			if err := claims.AddLeafRootsTree(is.rootsTree, idenStateTreeRoots.ClaimsTreeRoot); err != nil {
+			// The leaf is already there if a previous publication failed after adding it.
+			err := claims.AddLeafRootsTree(is.rootsTree, idenStateTreeRoots.ClaimsTreeRoot)
+			if err != nil && err != merkletree.ErrEntryIndexAlreadyExists {
 				return err
 			}
 			idenState, idenStateTreeRoots = is.state()
-- 
2.43.0


From a046cbd930945bcb08266810cb3167171df51595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 21/50] fix: send the pending state again when its publication
 failed

---
 identity/issuer/issuer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 806da20..4fb5045 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -707,7 +707,10 @@ func (is *Issuer) PublishState() error {
 			return err
 		}
 	} else {
-		idenStateLast, idenStateTreeRootsLast, err = is.getIdenStateByIdx(tx0, -2)
+		// The pending state wasn't transacted: it's the last one in the
+		// list, and the trees may have changed since.
+		idenState, idenStateTreeRoots = idenStateLast, *idenStateTreeRootsLast
+		idenStateLast, _, err = is.getIdenStateByIdx(tx0, -2)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From aca576cad2e15c55c1c7efb9f6afa3a99a87477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 22/50] fix: keep the identity state data in memory equal to
 the stored one

---
 identity/issuer/issuer.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 4fb5045..9692f19 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -133,8 +133,9 @@ type Issuer struct {
 
 func (is *Issuer) idenStateDataOnChain() *proof.IdenStateData { return is._idenStateDataOnChain }
 
+// setIdenStateDataOnChain stores v.  The value in memory must be updated once
+// tx is commited.  The same applies to the other setters.
 func (is *Issuer) setIdenStateDataOnChain(tx db.Tx, v *proof.IdenStateData) error {
-	is._idenStateDataOnChain = v
 	return db.StoreJSON(tx, dbKeyIdenStateDataOnChain, v)
 }
 
@@ -176,8 +177,6 @@ func bool2byte(v bool) byte {
 }
 
 func (is *Issuer) setIdenStatePending(tx db.Tx, v *merkletree.Hash, transacted bool) {
-	is._idenStatePending = v
-	is._idenStatePendingTransacted = transacted
 	tx.Put(dbKeyIdenStatePending, v[:])
 	tx.Put(dbKeyIdenStatePendingTransacted, []byte{bool2byte(transacted)})
 }
@@ -202,7 +201,6 @@ func (is *Issuer) loadIdenStatePending() error {
 func (is *Issuer) ethTxSetState() *types.Transaction { return is._ethTxSetState }
 
 func (is *Issuer) setEthTxSetState(tx db.Tx, v *types.Transaction) error {
-	is._ethTxSetState = v
 	return db.StoreJSON(tx, dbKeyEthTxSetState, v)
 }
 
@@ -214,7 +212,6 @@ func (is *Issuer) loadEthTxSetState() error {
 func (is *Issuer) ethTxInitState() *types.Transaction { return is._ethTxInitState }
 
 func (is *Issuer) setEthTxInitState(tx db.Tx, v *types.Transaction) error {
-	is._ethTxInitState = v
 	return db.StoreJSON(tx, dbKeyEthTxInitState, v)
 }
 
@@ -567,6 +564,8 @@ func (is *Issuer) SyncIdenStatePublic() error {
 		if err := tx.Commit(); err != nil {
 			return err
 		}
+		is._idenStatePending, is._idenStatePendingTransacted = &merkletree.HashZero, false
+		is._idenStateDataOnChain = idenStateData
 		return nil
 	}
 
@@ -706,6 +705,7 @@ func (is *Issuer) PublishState() error {
 		if err := tx.Commit(); err != nil {
 			return err
 		}
+		is._idenStatePending, is._idenStatePendingTransacted = idenState, false
 	} else {
 		// The pending state wasn't transacted: it's the last one in the
 		// list, and the trees may have changed since.
@@ -728,6 +728,7 @@ func (is *Issuer) PublishState() error {
 		return err
 	}
 
+	ethTxInitState, ethTxSetState := is.ethTxInitState(), is.ethTxSetState()
 	if is.idenStateOnChain().Equals(&merkletree.HashZero) {
 		// Identity State not present in the Smart Contract. First time
 		// publishing it.
@@ -739,6 +740,7 @@ func (is *Issuer) PublishState() error {
 		if err := is.setEthTxInitState(tx, ethTx); err != nil {
 			return err
 		}
+		ethTxInitState = ethTx
 	} else {
 		// Identity State already present in the Smart Contract.
 		// Update it.
@@ -750,12 +752,15 @@ func (is *Issuer) PublishState() error {
 		if err := is.setEthTxSetState(tx, ethTx); err != nil {
 			return err
 		}
+		ethTxSetState = ethTx
 	}
 	is.setIdenStatePending(tx, idenState, true)
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	is._ethTxInitState, is._ethTxSetState = ethTxInitState, ethTxSetState
+	is._idenStatePending, is._idenStatePendingTransacted = idenState, true
 
 	publicData := idenpuboffchain.PublicData{
 		IdenState:           idenState,
-- 
2.43.0


From 4f9237ddd2207554ed99c810a5971eae6ed29568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 23/50] fix: allow publishing the pending state again when its
 transaction failed

---
 identity/issuer/issuer.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 9692f19..cd8c8ba 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -505,15 +505,28 @@ func (is *Issuer) SyncIdenStatePublic() error {
 		confirmBlocks, err := is.idenPubOnChain.TxConfirmBlocks(ethTx)
 		if err == eth.ErrReceiptNotReceived {
 			return nil
+		} else if err == eth.ErrReceiptStatusFailed {
+			// The transaction failed: go back to
+			// (B)(idenStatePending: X, transacted: false)
+			tx, err := is.storage.NewTx()
+			if err != nil {
+				return err
+			}
+			is.setIdenStatePending(tx, idenStatePending, false)
+			if err := tx.Commit(); err != nil {
+				return err
+			}
+			is._idenStatePendingTransacted = false
 		} else if err != nil {
 			return fmt.Errorf("TxConfirmBlocks: %w", err)
-		}
-		log.WithField("tx", ethTx.Hash().Hex()).
-			WithField("TxConfirmBlocks", confirmBlocks).
-			WithField("cfg.ConfirmBlocks", is.cfg.ConfirmBlocks).
-			Debug("State Update Tx")
-		if confirmBlocks.Cmp(new(big.Int).SetUint64(is.cfg.ConfirmBlocks)) == -1 {
-			return nil
+		} else {
+			log.WithField("tx", ethTx.Hash().Hex()).
+				WithField("TxConfirmBlocks", confirmBlocks).
+				WithField("cfg.ConfirmBlocks", is.cfg.ConfirmBlocks).
+				Debug("State Update Tx")
+			if confirmBlocks.Cmp(new(big.Int).SetUint64(is.cfg.ConfirmBlocks)) == -1 {
+				return nil
+			}
 		}
 	}
 
-- 
2.43.0


From bed81cae8ea06040fcd03acbdaef41b65399707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:34 +0000
Subject: [PATCH 24/50] fix: off-chain publisher serves the latest data when
 its cache length does not divide 256

prevCacheIdx subtracted one from a byte before taking the remainder, so at
slot 0 it wrapped to 255 % CacheLen, which is the last slot only for lengths
that divide 256; for others the latest data served was an older one.
---
 components/idenpuboffchain/writerhttp/writerhttp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 2807ca9..bedb22e 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -134,7 +134,7 @@ func (i *IdenPubOffChainWriteHttp) prevCacheIdx(tx db.Tx) (byte, error) {
 	if err != nil {
 		return 0, err
 	}
-	return (cacheIdx[0] - 1) % i.cfg.CacheLen, nil
+	return byte((int(cacheIdx[0]) + int(i.cfg.CacheLen) - 1) % int(i.cfg.CacheLen)), nil
 }
 
 // nextCacheIdx returns the current cacheIdx and stores the next one.
-- 
2.43.0


From f958b172dcc14a9842dd3be267513ab7a0f62189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 25/50] fix: public off-chain data is checked node by node
 against the identity state

Only the roots were compared, and a dump gives the root apart from the nodes,
so data with the right roots but missing or altered nodes was accepted, for
example a revocations tree with a revocation left out.
---
 components/idenpuboffchain/idenpuboffchain.go | 32 ++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/idenpuboffchain.go b/components/idenpuboffchain/idenpuboffchain.go
index 19efbb2..44ca3dd 100644
--- a/components/idenpuboffchain/idenpuboffchain.go
+++ b/components/idenpuboffchain/idenpuboffchain.go
@@ -11,6 +11,7 @@ import (
 
 var (
 	ErrCalculatedIdenStateDoesntMatch = fmt.Errorf("Calculated IdenState doesn't match the one in PublicDataBlobs")
+	ErrTreeNodeDoesntMatch            = fmt.Errorf("Node of a tree in PublicDataBlobs doesn't match its key")
 )
 
 // IdenPubOffChainReader is a interface to read the off chain public state of an identity.
@@ -44,9 +45,32 @@ type PublicData struct {
 	RootsTree           *merkletree.MerkleTree
 }
 
+// checkNodes checks that all the nodes of the tree under the key are there and
+// that each one hashes to its key.
+func checkNodes(mt *merkletree.MerkleTree, key *merkletree.Hash) error {
+	n, err := mt.GetNode(key)
+	if err != nil {
+		return err
+	}
+	nodeKey, err := n.Key()
+	if err != nil {
+		return err
+	}
+	if !nodeKey.Equals(key) {
+		return ErrTreeNodeDoesntMatch
+	}
+	if n.Type != merkletree.NodeTypeMiddle {
+		return nil
+	}
+	if err := checkNodes(mt, n.ChildL); err != nil {
+		return err
+	}
+	return checkNodes(mt, n.ChildR)
+}
+
 // NewPublicDataFromBlobs builds the revocation tree and the roots tree in
 // memory storage.  It also checks the validity of the tree roots against the
-// identity state.
+// identity state, and of the nodes of the trees against the roots.
 func NewPublicDataFromBlobs(publicDataBlobs *PublicDataBlobs) (*PublicData, error) {
 	revocationsTree, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
 	if err != nil {
@@ -80,6 +104,12 @@ func NewPublicDataFromBlobs(publicDataBlobs *PublicDataBlobs) (*PublicData, erro
 	if !idenState.Equals(&publicDataBlobs.IdenState) {
 		return nil, ErrCalculatedIdenStateDoesntMatch
 	}
+	if err := checkNodes(revocationsTree, &publicDataBlobs.RevocationsTreeRoot); err != nil {
+		return nil, err
+	}
+	if err := checkNodes(rootsTree, &publicDataBlobs.RootsTreeRoot); err != nil {
+		return nil, err
+	}
 	return &PublicData{
 		IdenState:           &publicDataBlobs.IdenState,
 		ClaimsTreeRoot:      &publicDataBlobs.ClaimsTreeRoot,
-- 
2.43.0


From efdc3a3f38c8e39a7c0eedb3d9cce443571609d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:46 +0000
Subject: [PATCH 26/50] fix: reading public data from an empty address is an
 error, not a panic

---
 components/httpclient/httpclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/httpclient/httpclient.go b/components/httpclient/httpclient.go
index 4eb43f5..97202e5 100644
--- a/components/httpclient/httpclient.go
+++ b/components/httpclient/httpclient.go
@@ -23,7 +23,7 @@ type HttpClient struct {
 }
 
 func NewHttpClient(urlBase string) *HttpClient {
-	if urlBase[len(urlBase)-1] != '/' {
+	if len(urlBase) == 0 || urlBase[len(urlBase)-1] != '/' {
 		urlBase += "/"
 	}
 	client := sling.New().Base(urlBase)
-- 
2.43.0


From 50a08eefc2dac1dd305603ec5e922cb8d49f6cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 27/50] fix: in-process publisher serves the trees as they were
 published

It kept the issuer's live trees, so after the next claim was issued or revoked
the data served for a state no longer matched it and holders refused it.
---
 components/idenpuboffchain/local/local.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/local/local.go b/components/idenpuboffchain/local/local.go
index 7bc7801..161a3ea 100644
--- a/components/idenpuboffchain/local/local.go
+++ b/components/idenpuboffchain/local/local.go
@@ -52,6 +52,19 @@ func (ip *IdenPubOffChain) Url() string {
 }
 
 func (ip *IdenPubOffChain) Publish(id *core.ID, publicData *idenpuboffchain.PublicData) error {
+	// The trees keep growing in the issuer; keep them as they are at the
+	// published roots.
+	revocationsTree, err := publicData.RevocationsTree.Snapshot(publicData.RevocationsTreeRoot)
+	if err != nil {
+		return err
+	}
+	rootsTree, err := publicData.RootsTree.Snapshot(publicData.RootsTreeRoot)
+	if err != nil {
+		return err
+	}
+	data := *publicData
+	data.RevocationsTree, data.RootsTree = revocationsTree, rootsTree
+
 	ip.rw.Lock()
 	defer ip.rw.Unlock()
 	iden, ok := ip.idens[*id]
@@ -62,7 +75,7 @@ func (ip *IdenPubOffChain) Publish(id *core.ID, publicData *idenpuboffchain.Publ
 		}
 		ip.idens[*id] = iden
 	}
-	iden.datas[*publicData.IdenState] = publicData
+	iden.datas[*publicData.IdenState] = &data
 	iden.last = publicData.IdenState
 	return nil
 }
-- 
2.43.0


From b23e19675c9ed620dfb8358ebf94e03334cf5366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:27 +0000
Subject: [PATCH 28/50] fix: key store opened on a storage that holds null
 accepts keys

---
 keystore/keystore.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 04ead5f..e4b4252 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -249,6 +249,9 @@ func NewKeyStore(storage Storage, params KeyStoreParams) (*KeyStore, error) {
 			storage.Unlock() //nolint:errcheck
 			return nil, err
 		}
+		if encryptedKeys == nil {
+			encryptedKeys = make(map[babyjub.PublicKeyComp]EncryptedData)
+		}
 	}
 	ks := &KeyStore{
 		storage:       storage,
-- 
2.43.0


From 57a1dd992a4dc7c3ad599c5cf0432670cf12424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:27 +0000
Subject: [PATCH 29/50] fix: a key whose storage fails is not kept by the open
 key store

---
 keystore/keystore.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index e4b4252..3ecebb1 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -302,14 +302,19 @@ func (ks *KeyStore) ImportKey(sk babyjub.PrivateKey, pass []byte) (*babyjub.Publ
 	}
 	pk := sk.Public()
 	pubComp := pk.Compress()
-	ks.encryptedKeys[pubComp] = *encryptedKey
-	encryptedKeysJSON, err := json.Marshal(ks.encryptedKeys)
+	encryptedKeys := make(KeysStored, len(ks.encryptedKeys)+1)
+	for k, v := range ks.encryptedKeys {
+		encryptedKeys[k] = v
+	}
+	encryptedKeys[pubComp] = *encryptedKey
+	encryptedKeysJSON, err := json.Marshal(encryptedKeys)
 	if err != nil {
 		return nil, err
 	}
 	if err := ks.storage.Write(encryptedKeysJSON); err != nil {
 		return nil, err
 	}
+	ks.encryptedKeys = encryptedKeys
 	return &pubComp, nil
 }
 
-- 
2.43.0


From eb242301c8d6e7ff6caca3acc09e2a38069338db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 30/50] fix: a closed key store does not sign with zeroed keys

---
 keystore/keystore.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 3ecebb1..3c62b9b 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -268,9 +268,12 @@ func NewKeyStore(storage Storage, params KeyStoreParams) (*KeyStore, error) {
 }
 
 func (ks *KeyStore) Close() error {
+	ks.rw.Lock()
+	defer ks.rw.Unlock()
 	zero := [32]byte{}
-	for _, sk := range ks.cache {
+	for pk, sk := range ks.cache {
 		copy(sk[:], zero[:])
+		delete(ks.cache, pk)
 	}
 	return ks.storage.Unlock()
 }
-- 
2.43.0


From f45fb678ad00efc72e733f91b69661b327702d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 31/50] fix: an exported key is a copy of the one the key store
 signs with

---
 keystore/keystore.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 3c62b9b..d21c141 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -328,7 +328,8 @@ func (ks *KeyStore) ExportKey(pk *babyjub.PublicKeyComp) (*babyjub.PrivateKey, e
 	if !ok {
 		return nil, ErrKeyNotInCache
 	}
-	return sk, nil
+	skCopy := *sk
+	return &skCopy, nil
 }
 
 // UnlockKey decrypts the key corresponding to the public key pk and loads it
-- 
2.43.0


From f8e9c2d3bf7dabb88b624c8b979d5b5e44fa2ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 32/50] fix: a failed write of the key store file keeps the
 keys already in it

---
 keystore/keystore.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index d21c141..b1920e7 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -177,7 +177,14 @@ func (fs *FileStorage) Write(data []byte) error {
 	if !fs.lock.Locked() {
 		return ErrStorageUnlocked
 	}
-	return ioutil.WriteFile(fs.path, data, 0600)
+	// Write to a temporary file first, so that the stored keys are not lost
+	// if the data can't be fully written.
+	pathTmp := fs.path + ".tmp"
+	if err := ioutil.WriteFile(pathTmp, data, 0600); err != nil {
+		os.Remove(pathTmp) //nolint:errcheck
+		return err
+	}
+	return os.Rename(pathTmp, fs.path)
 }
 
 // TryLocks the storage file with a .lock file.
-- 
2.43.0


From a4def828e6c578b0a1cab0c4fcc94c372753183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 33/50] fix: key store memory storage copies what is written
 and read

---
 keystore/keystore.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index b1920e7..3d4132a 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -209,12 +209,12 @@ type MemStorage []byte
 
 // Read reads the slice contents.
 func (ms *MemStorage) Read() ([]byte, error) {
-	return []byte(*ms), nil
+	return append([]byte{}, *ms...), nil
 }
 
 // Write copies the data to the slice.
 func (ms *MemStorage) Write(data []byte) error {
-	*ms = data
+	*ms = append([]byte{}, data...)
 	return nil
 }
 
-- 
2.43.0


From c987eb11c1fc3b0c2eb8132252f775a992e89a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 34/50] fix: closing a key store again leaves the lock file of
 its next user

---
 keystore/keystore.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 3d4132a..c165e9c 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -198,6 +198,9 @@ func (fs *FileStorage) TryLock() (bool, error) {
 func (fs *FileStorage) Unlock() error {
 	fs.rw.Lock()
 	defer fs.rw.Unlock()
+	if !fs.lock.Locked() {
+		return ErrStorageUnlocked
+	}
 	if err := fs.lock.Unlock(); err != nil {
 		return err
 	}
-- 
2.43.0


From d8f7de7233a6f9066dd3e6bae89ec42979412273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 35/50] fix: signing and verifying with a prefix leave its
 buffer alone

---
 keystore/keystore.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index c165e9c..f8f7050 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -379,7 +379,9 @@ func (ks *KeyStore) SignElem(pk *babyjub.PublicKeyComp, msg *big.Int) (*babyjub.
 // of the [prefix | date | msg] byte slice.
 func (ks *KeyStore) Sign(pk *babyjub.PublicKeyComp, prefix PrefixType, rawMsg []byte) (*babyjub.SignatureComp, int64, error) {
 	date := time.Now()
-	msg := append(prefix, common.Uint64ToEthBytes(uint64(date.Unix()))...)
+	// use a new slice, so that the one behind prefix is not written to
+	msg := append([]byte{}, prefix...)
+	msg = append(msg, common.Uint64ToEthBytes(uint64(date.Unix()))...)
 	msg = append(msg, rawMsg...)
 	sig, err := ks.SignRaw(pk, msg)
 	return sig, date.Unix(), err
@@ -411,7 +413,9 @@ func VerifySignatureElem(pkComp *babyjub.PublicKeyComp, msg *big.Int, sigComp *b
 // VerifySignature verifies that the signature sigComp of the poseidon hash of
 // the [prefix | date | msg] byte slice was signed with the public key pkComp.
 func VerifySignature(pkComp *babyjub.PublicKeyComp, sigComp *babyjub.SignatureComp, prefix PrefixType, date int64, rawMsg []byte) (bool, error) {
-	msg := append(prefix, common.Uint64ToEthBytes(uint64(date))...)
+	// use a new slice, so that the one behind prefix is not written to
+	msg := append([]byte{}, prefix...)
+	msg = append(msg, common.Uint64ToEthBytes(uint64(date))...)
 	msg = append(msg, rawMsg...)
 	return VerifySignatureRaw(pkComp, sigComp, msg)
 }
-- 
2.43.0


From 3d356f11bc1b262be4e4faf5c9a58ac34490577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 36/50] fix: signing a message with its date leaves its buffer
 alone

---
 components/idensigner/idensigner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/components/idensigner/idensigner.go b/components/idensigner/idensigner.go
index 09bac2b..7285b9c 100644
--- a/components/idensigner/idensigner.go
+++ b/components/idensigner/idensigner.go
@@ -38,6 +38,8 @@ func (s *IdenSigner) SignEthMsg(msg []byte) (*babyjub.SignatureComp, error) {
 func (s *IdenSigner) SignEthMsgDate(msg []byte) (*babyjub.SignatureComp, int64, error) {
 	dateInt64 := time.Now().Unix()
 	dateBytes := common.Uint64ToEthBytes(uint64(dateInt64))
-	sig, err := s.SignEthMsg(append(msg, dateBytes...))
+	// use a new slice, so that the one behind msg is not written to
+	msgDate := append([]byte{}, msg...)
+	sig, err := s.SignEthMsg(append(msgDate, dateBytes...))
 	return sig, dateInt64, err
 }
-- 
2.43.0


From 1e71e44bb08a6a473f1a2b3a4857bb0c19d74e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 37/50] fix: issuer signing a binary message leaves the prefix
 buffer alone

---
 identity/issuer/issuer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index cd8c8ba..2781549 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -830,7 +830,9 @@ func (is *Issuer) Sign(string) (string, error) {
 
 // SignBinary signs a binary message by the kOp of the issuer.
 func (is *Issuer) SignBinary(prefix, msg []byte) (*babyjub.SignatureComp, error) {
-	return is.keyStore.SignRaw(is.kOpComp, append(prefix, msg...))
+	// use a new slice, so that the one behind prefix is not written to
+	prefixMsg := append([]byte{}, prefix...)
+	return is.keyStore.SignRaw(is.kOpComp, append(prefixMsg, msg...))
 }
 
 // SignState signs the Identity State transition (oldState+newState) by the kOp of the issuer.
-- 
2.43.0


From 2cbdcf37b16805c2f0f00b1dacd49331502d6fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 38/50] fix: verifying an ethereum message with its date leaves
 its buffer alone

---
 crypto/signatures.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypto/signatures.go b/crypto/signatures.go
index 6de1c6d..839ceb0 100644
--- a/crypto/signatures.go
+++ b/crypto/signatures.go
@@ -78,7 +78,9 @@ func VerifySigEthMsg(addr common.Address, sig *SignatureEthMsg, msg []byte) bool
 // appended given an ethereum address.
 func VerifySigEthMsgDate(addr common.Address, sig *SignatureEthMsg, msg []byte, date int64) bool {
 	dateBytes := common3.Uint64ToEthBytes(uint64(date))
-	return VerifySigEthMsg(addr, sig, append(msg[:], dateBytes...))
+	// use a new slice, so that the one behind msg is not written to
+	msgDate := append([]byte{}, msg...)
+	return VerifySigEthMsg(addr, sig, append(msgDate, dateBytes...))
 }
 
 // VerifySig verifies a given signature and the msgHash with the expected address
-- 
2.43.0


From 1e2bd364d30afce1ae2e61d223614d1ee8ebca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 39/50] fix: signing or verifying a message that is not a field
 element is an error

---
 keystore/keystore.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index f8f7050..24457b8 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -19,6 +19,7 @@ import (
 	common3 "github.com/iden3/go-iden3-core/common"
 	"github.com/iden3/go-iden3-crypto/babyjub"
 	"github.com/iden3/go-iden3-crypto/poseidon"
+	"github.com/iden3/go-iden3-crypto/utils"
 	"golang.org/x/crypto/nacl/secretbox"
 	"golang.org/x/crypto/scrypt"
 )
@@ -52,6 +53,7 @@ var (
 	ErrKeyNotInCache   = fmt.Errorf("public key not found in the cache.  Maybe it's not unlocked")
 	ErrKeyNotFound     = fmt.Errorf("public key not found in the key store")
 	ErrInvalidEncData  = fmt.Errorf("invalid encrypted data")
+	ErrMsgNotInField   = fmt.Errorf("message is not inside the finite field")
 )
 
 // prefixes for msg to be signed
@@ -370,6 +372,9 @@ func (ks *KeyStore) SignElem(pk *babyjub.PublicKeyComp, msg *big.Int) (*babyjub.
 	if !ok {
 		return nil, ErrKeyNotInCache
 	}
+	if !utils.CheckBigIntInField(msg) {
+		return nil, ErrMsgNotInField
+	}
 	sig := sk.SignPoseidon(msg)
 	sigComp := sig.Compress()
 	return &sigComp, nil
@@ -406,6 +411,9 @@ func VerifySignatureElem(pkComp *babyjub.PublicKeyComp, msg *big.Int, sigComp *b
 	if err != nil {
 		return false, err
 	}
+	if !utils.CheckBigIntInField(msg) {
+		return false, ErrMsgNotInField
+	}
 	pk := babyjub.PublicKey(*pkPoint)
 	return pk.VerifyPoseidon(msg, sig), nil
 }
-- 
2.43.0


From dbb42b4b554f37045040e921d2751590777235be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 40/50] fix: DumpTree wrote a root newer than the nodes it
 dumped when entries were added meanwhile

---
 merkletree/merkletree.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 2aa4b10..6859022 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -595,6 +595,9 @@ func (mt *MerkleTree) PrintGraphViz(rootKey *Hash) error {
 // to compute the Tree, while with DumpClaims will require to compute the Tree
 // (with the computational cost of each hash)
 func (mt *MerkleTree) DumpTree(w io.Writer, rootKey *Hash) error {
+	if rootKey == nil {
+		rootKey = mt.RootKey()
+	}
 	var errS error
 	err := mt.Walk(rootKey, func(n *Node) {
 		if n.Type != NodeTypeEmpty {
@@ -615,9 +618,6 @@ func (mt *MerkleTree) DumpTree(w io.Writer, rootKey *Hash) error {
 		return errS
 	}
 
-	if rootKey == nil {
-		rootKey = mt.RootKey()
-	}
 	err = serializeKV(w, rootNodeValue, rootKey.Bytes())
 
 	return err
-- 
2.43.0


From 7a751cb3eb5bc654a2b3dd27c8083ebde29c205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 41/50] fix: the memory storage was not safe for concurrent use

---
 db/memory.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/db/memory.go b/db/memory.go
index 8d6dcfd..6929e80 100644
--- a/db/memory.go
+++ b/db/memory.go
@@ -3,11 +3,13 @@ package db
 import (
 	"bytes"
 	"sort"
+	"sync"
 )
 
 type MemoryStorage struct {
 	prefix []byte
 	kv     kvMap
+	rw     *sync.RWMutex // of kv, shared with the storages that have a prefix
 }
 
 type MemoryStorageTx struct {
@@ -17,7 +19,7 @@ type MemoryStorageTx struct {
 
 func NewMemoryStorage() *MemoryStorage {
 	kvmap := make(kvMap)
-	return &MemoryStorage{[]byte{}, kvmap}
+	return &MemoryStorage{[]byte{}, kvmap, &sync.RWMutex{}}
 }
 
 func (l *MemoryStorage) Info() string {
@@ -25,7 +27,7 @@ func (l *MemoryStorage) Info() string {
 }
 
 func (m *MemoryStorage) WithPrefix(prefix []byte) Storage {
-	return &MemoryStorage{concat(m.prefix, prefix), m.kv}
+	return &MemoryStorage{concat(m.prefix, prefix), m.kv, m.rw}
 }
 
 func (m *MemoryStorage) NewTx() (Tx, error) {
@@ -34,6 +36,8 @@ func (m *MemoryStorage) NewTx() (Tx, error) {
 
 // Get retreives a value from a key in the mt.Lvl
 func (l *MemoryStorage) Get(key []byte) ([]byte, error) {
+	l.rw.RLock()
+	defer l.rw.RUnlock()
 
 	if v, ok := l.kv.Get(concat(l.prefix, key[:])); ok {
 		return v, nil
@@ -43,6 +47,7 @@ func (l *MemoryStorage) Get(key []byte) ([]byte, error) {
 
 func (l *MemoryStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 	kvs := make([]KV, 0)
+	l.rw.RLock()
 	for _, v := range l.kv {
 		if len(v.K) < len(l.prefix) || !bytes.Equal(v.K[:len(l.prefix)], l.prefix) {
 			continue
@@ -51,6 +56,7 @@ func (l *MemoryStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 		kvs = append(kvs, KV{localkey, v.V})
 
 	}
+	l.rw.RUnlock()
 	sort.SliceStable(kvs, func(i, j int) bool { return bytes.Compare(kvs[i].K, kvs[j].K) < 0 })
 
 	for _, kv := range kvs {
@@ -68,6 +74,8 @@ func (tx *MemoryStorageTx) Get(key []byte) ([]byte, error) {
 	if v, ok := tx.kv.Get(concat(tx.s.prefix, key)); ok {
 		return v, nil
 	}
+	tx.s.rw.RLock()
+	defer tx.s.rw.RUnlock()
 	if v, ok := tx.s.kv.Get(concat(tx.s.prefix, key)); ok {
 		return v, nil
 	}
@@ -80,6 +88,8 @@ func (tx *MemoryStorageTx) Put(k, v []byte) {
 }
 
 func (tx *MemoryStorageTx) Commit() error {
+	tx.s.rw.Lock()
+	defer tx.s.rw.Unlock()
 	for _, v := range tx.kv {
 		tx.s.kv.Put(v.K, v.V)
 	}
-- 
2.43.0


From 6ad7994666fbbf57c40b473ddfc6d88533fcae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 42/50] fix: IdenStateOnChain and IdenStatePending read the
 issuer's state without its lock

---
 identity/issuer/issuer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 2781549..eb0a112 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -145,7 +145,9 @@ func (is *Issuer) loadIdenStateDataOnChain() error {
 }
 
 func (is *Issuer) IdenStateOnChain() *merkletree.Hash {
-	return is._idenStateDataOnChain.IdenState
+	is.rw.RLock()
+	defer is.rw.RUnlock()
+	return is.idenStateOnChain()
 }
 
 func (is *Issuer) idenStateOnChain() *merkletree.Hash {
@@ -153,7 +155,9 @@ func (is *Issuer) idenStateOnChain() *merkletree.Hash {
 }
 
 func (is *Issuer) IdenStatePending() (*merkletree.Hash, bool) {
-	return is._idenStatePending, is._idenStatePendingTransacted
+	is.rw.RLock()
+	defer is.rw.RUnlock()
+	return is.idenStatePending()
 }
 
 func (is *Issuer) idenStatePending() (*merkletree.Hash, bool) {
-- 
2.43.0


From af9c2936c06519b9c62758be8d3d702bffe92a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:40 +0000
Subject: [PATCH 43/50] fix: the claims written by DumpClaimsIoWriter were not
 JSON, and failing writes went unnoticed

---
 merkletree/merkletree.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 6859022..b5133b3 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -722,13 +722,24 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 // DumpClaimsIoWriter uses Walk function to get all the Claims of the tree and write
 // them to w.  The output is JSON encoded with claims in hex.
 func (mt *MerkleTree) DumpClaimsIoWriter(w io.Writer, rootKey *Hash) error {
-	fmt.Fprintf(w, "[\n")
+	if _, err := fmt.Fprintf(w, "["); err != nil {
+		return err
+	}
+	sep := "\n"
+	var errS error
 	err := mt.Walk(rootKey, func(n *Node) {
-		if n.Type == NodeTypeLeaf {
-			fmt.Fprintf(w, "	\"%v\",\n", common3.HexEncode(n.Entry.Bytes()))
+		if n.Type == NodeTypeLeaf && errS == nil {
+			_, errS = fmt.Fprintf(w, "%s	\"%v\"", sep, common3.HexEncode(n.Entry.Bytes()))
+			sep = ",\n"
 		}
 	})
-	fmt.Fprintf(w, "]\n")
+	if err != nil {
+		return err
+	}
+	if errS != nil {
+		return errS
+	}
+	_, err = fmt.Fprintf(w, "\n]\n")
 	return err
 }
 
-- 
2.43.0


From bf50ed961e9a40df2210dd503d630b11d2023632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 44/50] fix: an entry read into one that was used kept the
 hashes of the previous data

---
 merkletree/merkletree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index b5133b3..8851cbe 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -208,6 +208,8 @@ func (e Entry) MarshalText() ([]byte, error) {
 }
 
 func (e *Entry) UnmarshalText(text []byte) error {
+	// The cached hashes are those of the previous data.
+	e.hIndex, e.hValue = nil, nil
 	return e.Data.UnmarshalText(text)
 }
 
-- 
2.43.0


From 6fbd4065b0677e28e8f6d9812b6ba1cfb06c79de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 45/50] fix: the in-process chain let a second pending state
 replace the first, or follow from an outdated one

---
 components/idenpubonchain/local/local.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index 2500d85..9c54eaa 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -136,6 +136,12 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 		return nil, idenpubonchain.ErrIdenNotOnChain
 	}
 	oldState := idenStatesData.IdenStates[len(idenStatesData.IdenStates)-1].IdenState
+	// A state that is pending will be the one to update.
+	for _, pending := range ip.pendingSet {
+		if *pending.Id == *id {
+			oldState = pending.IdenStateData.IdenState
+		}
+	}
 	if !ip.verifyZKP(zkProof, id, oldState, newState) {
 		return nil, fmt.Errorf("zkproof verification failed")
 	}
@@ -157,6 +163,11 @@ func (ip *IdenPubOnChain) InitState(id *core.ID, genesisState,
 	if ok {
 		return nil, fmt.Errorf("identity already exists on chain")
 	}
+	for _, pending := range ip.pendingInit {
+		if *pending.Id == *id {
+			return nil, fmt.Errorf("identity already exists on chain")
+		}
+	}
 
 	if !ip.verifyZKP(zkProof, id, genesisState, newState) {
 		return nil, fmt.Errorf("zkproof verification failed")
-- 
2.43.0


From 5198a1229f4e05345b6471933062072f166b1d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 46/50] fix: a pending state of the in-process chain changed
 with the caller's identity and state

---
 components/idenpubonchain/local/local.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index 9c54eaa..7ca0049 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -145,12 +145,14 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 	if !ip.verifyZKP(zkProof, id, oldState, newState) {
 		return nil, fmt.Errorf("zkproof verification failed")
 	}
+	// what is pending does not change with the caller's values
+	idCopy, newStateCopy := *id, *newState
 	idenState := proof.IdenStateData{
 		BlockN:    ip.blockNow(),
 		BlockTs:   ip.timeNow().Unix(),
-		IdenState: newState,
+		IdenState: &newStateCopy,
 	}
-	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: id, IdenStateData: &idenState})
+	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: &idCopy, IdenStateData: &idenState})
 	return &types.Transaction{}, nil
 }
 
@@ -172,12 +174,14 @@ func (ip *IdenPubOnChain) InitState(id *core.ID, genesisState,
 	if !ip.verifyZKP(zkProof, id, genesisState, newState) {
 		return nil, fmt.Errorf("zkproof verification failed")
 	}
+	// what is pending does not change with the caller's values
+	idCopy, newStateCopy := *id, *newState
 	idenState := proof.IdenStateData{
 		BlockN:    ip.blockNow(),
 		BlockTs:   ip.timeNow().Unix(),
-		IdenState: newState,
+		IdenState: &newStateCopy,
 	}
-	ip.pendingInit = append(ip.pendingInit, &IdIdenStateData{Id: id, IdenStateData: &idenState})
+	ip.pendingInit = append(ip.pendingInit, &IdIdenStateData{Id: &idCopy, IdenStateData: &idenState})
 	return types.NewTransaction(0, common.Address{}, nil, 0, nil,
 		new(big.Int).SetUint64(ip.blockNow()).Bytes()), nil
 }
-- 
2.43.0


From 6fffe3df940473bcb8587f98a5e91527211f7249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:31 +0000
Subject: [PATCH 47/50] fix: the in-process chain's transaction that sets a
 state had no block, and could not be stored

---
 components/idenpubonchain/local/local.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index 7ca0049..310b6f0 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -153,7 +153,7 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 		IdenState: &newStateCopy,
 	}
 	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: &idCopy, IdenStateData: &idenState})
-	return &types.Transaction{}, nil
+	return newTransaction(idenState.BlockN), nil
 }
 
 // InitState initializes the first Identity State of the given ID in the IdenStates Smart Contract.
@@ -182,8 +182,13 @@ func (ip *IdenPubOnChain) InitState(id *core.ID, genesisState,
 		IdenState: &newStateCopy,
 	}
 	ip.pendingInit = append(ip.pendingInit, &IdIdenStateData{Id: &idCopy, IdenStateData: &idenState})
+	return newTransaction(idenState.BlockN), nil
+}
+
+// newTransaction returns a transaction sent at a block.
+func newTransaction(blockN uint64) *types.Transaction {
 	return types.NewTransaction(0, common.Address{}, nil, 0, nil,
-		new(big.Int).SetUint64(ip.blockNow()).Bytes()), nil
+		new(big.Int).SetUint64(blockN).Bytes())
 }
 
 // TxConfirmBlocks returns the number of confirmed blocks of transaction tx.
-- 
2.43.0


From c3d7eb3a29af4b202716499b1eaac9fee9356c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:09 +0000
Subject: [PATCH 48/50] fix: the summary of a LevelDB storage with an empty
 value panicked

---
 db/leveldb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index fea3165..5a32be3 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -46,7 +46,7 @@ func (l *LevelDbStorage) Info() string {
 	claimcount := 0
 	iter := snapshot.NewIterator(nil, nil)
 	for iter.Next() {
-		if iter.Value()[0] == byte(1) { // TODO when the new merkletree version is ready, instead of byte(1) use the type indicator
+		if v := iter.Value(); len(v) > 0 && v[0] == byte(1) { // TODO when the new merkletree version is ready, instead of byte(1) use the type indicator
 			claimcount++
 		}
 
-- 
2.43.0


From 919452ff6021e95339a14d06286e66931d3a2df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:07 +0000
Subject: [PATCH 49/50] fix: a key store file could be opened again with the
 storage that had it open

---
 keystore/keystore.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 24457b8..82a8e89 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -193,6 +193,10 @@ func (fs *FileStorage) Write(data []byte) error {
 func (fs *FileStorage) TryLock() (bool, error) {
 	fs.rw.Lock()
 	defer fs.rw.Unlock()
+	// Locking a file again would succeed, but it is already in use.
+	if fs.lock.Locked() {
+		return false, nil
+	}
 	return fs.lock.TryLock()
 }
 
-- 
2.43.0


From 0af04e9505cd3744e6a0a0c7f6b67f09003f590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:07 +0000
Subject: [PATCH 50/50] fix: removing the lock file of a key store allowed two
 stores to open the same file

---
 keystore/keystore.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 82a8e89..6c4cd04 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -200,17 +200,15 @@ func (fs *FileStorage) TryLock() (bool, error) {
 	return fs.lock.TryLock()
 }
 
-// Unlocks the storage file and removes the .lock file.
+// Unlocks the storage file.  The .lock file stays: others may have it open to
+// lock it, and would end up with the lock of a removed file.
 func (fs *FileStorage) Unlock() error {
 	fs.rw.Lock()
 	defer fs.rw.Unlock()
 	if !fs.lock.Locked() {
 		return ErrStorageUnlocked
 	}
-	if err := fs.lock.Unlock(); err != nil {
-		return err
-	}
-	return os.Remove(fs.path + ".lock")
+	return fs.lock.Unlock()
 }
 
 // MemStorage is a storage backed by a slice.
-- 
2.43.0

