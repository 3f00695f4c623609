From 898b2324fcdf19e54a82788d10f717ce28038b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 01/31] fix: Merkle proofs are per position, so that duplicate
 records verify

---
 lib/database/merkle.go   |  6 +++---
 lib/merkle/merkletree.go | 26 +++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/lib/database/merkle.go b/lib/database/merkle.go
index 6ff9493..9fe0d41 100644
--- a/lib/database/merkle.go
+++ b/lib/database/merkle.go
@@ -78,7 +78,7 @@ func makeMerkleEntries(blocks [][]byte, tree *merkle.MerkleTree, nRows, nColumns
 		}
 		replyTo := make(chan []byte, 1)
 		replies[i] = replyTo
-		generateMerkleProofs(blocks[begin:end], tree, blockLen, replyTo)
+		generateMerkleProofs(blocks[begin:end], begin, tree, blockLen, replyTo)
 	}
 
 	for j, reply := range replies {
@@ -90,10 +90,10 @@ func makeMerkleEntries(blocks [][]byte, tree *merkle.MerkleTree, nRows, nColumns
 	return output
 }
 
-func generateMerkleProofs(data [][]byte, t *merkle.MerkleTree, blockLen int, reply chan<- []byte) {
+func generateMerkleProofs(data [][]byte, begin int, t *merkle.MerkleTree, blockLen int, reply chan<- []byte) {
 	result := make([]byte, 0, blockLen*len(data))
 	for b := 0; b < len(data); b++ {
-		p, err := t.GenerateProof(data[b])
+		p, err := t.GenerateProofAt(uint32(begin + b))
 		if err != nil {
 			log.Fatalf("error while generating proof for block %v: %v", b, err)
 		}
diff --git a/lib/merkle/merkletree.go b/lib/merkle/merkletree.go
index 2939a4b..73665ef 100644
--- a/lib/merkle/merkletree.go
+++ b/lib/merkle/merkletree.go
@@ -19,6 +19,7 @@ import (
 	"errors"
 	"hash/fnv"
 	"math"
+	"math/bits"
 )
 
 // MerkleTree is the structure for the Merkle tree.
@@ -31,6 +32,8 @@ type MerkleTree struct {
 	data map[uint64]uint32
 	// nodes are the leaf and branch nodes of the Merkle tree
 	nodes [][]byte
+	// numLeaves is the number of pieces of data in the tree
+	numLeaves int
 }
 
 func hashFNV1a64(data []byte) uint64 {
@@ -58,8 +61,18 @@ func (t *MerkleTree) GenerateProof(data []byte) (*Proof, error) {
 		return nil, err
 	}
 
-	proofLen := int(math.Ceil(math.Log2(float64(len(t.data)))))
-	hashes := make([][]byte, proofLen)
+	return t.GenerateProofAt(index)
+}
+
+// GenerateProofAt generates the proof for the piece of data at the given
+// position in the tree. If several positions hold the same data, each of them
+// has its own proof.
+func (t *MerkleTree) GenerateProofAt(index uint32) (*Proof, error) {
+	if int(index) >= t.numLeaves {
+		return nil, errors.New("index out of range")
+	}
+
+	hashes := make([][]byte, t.depth())
 
 	cur := 0
 	minI := uint32(math.Pow(2, float64(1))) - 1
@@ -74,7 +87,12 @@ func (t *MerkleTree) GenerateProof(data []byte) (*Proof, error) {
 // 4 bytes are for how many hashes are in the path, 8 bytes for embedding the index
 // in the tree (see proof.go for details).
 func (t *MerkleTree) EncodedProofLength() int {
-	return int(math.Ceil(math.Log2(float64(len(t.data)))))*t.hash.HashLength() + numHashesByteSize + indexByteSize
+	return t.depth()*t.hash.HashLength() + numHashesByteSize + indexByteSize
+}
+
+// depth returns the number of levels between a leaf and the root
+func (t *MerkleTree) depth() int {
+	return bits.TrailingZeros(uint(len(t.nodes) / 2))
 }
 
 // New creates a new Merkle tree using the provided raw data and default hash type.
@@ -120,6 +138,8 @@ func NewUsing(data [][]byte, hash HashType) (*MerkleTree, error) {
 		hash:  hash,
 		nodes: nodes,
 		data:  md,
+
+		numLeaves: len(data),
 	}
 
 	return tree, nil
-- 
2.43.0


From 3dcfb738b56a01661b269eeab56bba92f39870df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 02/31] fix: separate leaf and branch hashes in the Merkle
 tree, so that a branch does not verify as data

---
 lib/merkle/merkletree.go | 25 ++++++++++++++++++++++---
 lib/merkle/proof.go      |  7 +++----
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/lib/merkle/merkletree.go b/lib/merkle/merkletree.go
index 73665ef..d104889 100644
--- a/lib/merkle/merkletree.go
+++ b/lib/merkle/merkletree.go
@@ -117,8 +117,7 @@ func NewUsing(data [][]byte, hash HashType) (*MerkleTree, error) {
 	nodes := make([][]byte, branchesLen+len(data)+(branchesLen-len(data)))
 	// Leaves
 	for i := range data {
-		ib := indexToBytes(i)
-		nodes[i+branchesLen] = hash.Hash(data[i], ib)
+		nodes[i+branchesLen] = hashLeaf(hash, data[i], i)
 		if _, err := hashForNodes.Write(data[i]); err != nil {
 			return nil, err
 		}
@@ -131,7 +130,7 @@ func NewUsing(data [][]byte, hash HashType) (*MerkleTree, error) {
 
 	// Branches
 	for i := branchesLen - 1; i > 0; i-- {
-		nodes[i] = hash.Hash(nodes[i*2], nodes[i*2+1])
+		nodes[i] = hashBranch(hash, nodes[i*2], nodes[i*2+1])
 	}
 
 	tree := &MerkleTree{
@@ -150,6 +149,26 @@ func (t *MerkleTree) Root() []byte {
 	return t.nodes[1]
 }
 
+// Suffixes of the hash inputs, which keep the leaves apart from the branches:
+// without them, the children of a branch are a piece of data that verifies.
+const (
+	leafSuffix   = 0x00
+	branchSuffix = 0x01
+)
+
+// hashLeaf computes the hash of the piece of data at position i
+func hashLeaf(hash HashType, data []byte, i int) []byte {
+	return hash.Hash(data, append(indexToBytes(i), leafSuffix))
+}
+
+// hashBranch computes the hash of a branch from the ones of its children
+func hashBranch(hash HashType, left, right []byte) []byte {
+	suffixed := make([]byte, len(right)+1)
+	copy(suffixed, right)
+	suffixed[len(right)] = branchSuffix
+	return hash.Hash(left, suffixed)
+}
+
 // indexToBytes convert a data index in bytes representaiton
 func indexToBytes(i int) []byte {
 	if i > math.MaxUint32 {
diff --git a/lib/merkle/proof.go b/lib/merkle/proof.go
index 49159ad..cffa588 100644
--- a/lib/merkle/proof.go
+++ b/lib/merkle/proof.go
@@ -62,15 +62,14 @@ func VerifyProofUsing(data []byte, proof *Proof, root []byte, hashType HashType)
 
 func generateProofHash(data []byte, proof *Proof, hashType HashType) []byte {
 	var proofHash []byte
-	ib := indexToBytes(int(proof.Index))
-	proofHash = hashType.Hash(data, ib)
+	proofHash = hashLeaf(hashType, data, int(proof.Index))
 	index := proof.Index + (1 << uint(len(proof.Hashes)))
 
 	for _, hash := range proof.Hashes {
 		if index%2 == 0 {
-			proofHash = hashType.Hash(proofHash, hash)
+			proofHash = hashBranch(hashType, proofHash, hash)
 		} else {
-			proofHash = hashType.Hash(hash, proofHash)
+			proofHash = hashBranch(hashType, hash, proofHash)
 		}
 		index = index >> 1
 	}
-- 
2.43.0


From 4841043d3c16124d9b5e3b78ac36514fa6bf9e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 03/31] fix: bind the Merkle proof to the queried index, verify
 all rows, and reject malformed answers without crashing

---
 lib/client/client.go | 68 +++++++++++++++++++++++++++++++++-----------
 lib/merkle/proof.go  | 13 +++++++++
 2 files changed, 65 insertions(+), 16 deletions(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index bf4c9cc..fa31183 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -2,7 +2,6 @@ package client
 
 import (
 	"errors"
-	"log"
 
 	"github.com/cloudflare/circl/group"
 	"github.com/lukechampine/fastxor"
@@ -51,28 +50,62 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 	case "classical", "":
 		return reconstructValuePIR(answers, dbInfo, state)
 	case "merkle":
-		block, err := reconstructValuePIR(answers, dbInfo, state)
+		return reconstructMerkle(answers, dbInfo, state)
+	default:
+		panic("unknown PIRType")
+	}
+}
+
+// reconstructMerkle verifies the block of every row in the queried column, so
+// that whether the client rejects does not depend on the queried row, and
+// returns the data in the block of the queried row.
+func reconstructMerkle(answers [][]byte, dbInfo *database.Info, st *state) ([]byte, error) {
+	var out []byte
+	for ix := 0; ix < dbInfo.NumRows; ix++ {
+		block, err := reconstructValuePIR(answers, dbInfo, &state{ix: ix, iy: st.iy})
 		if err != nil {
-			return block, err
+			return nil, err
 		}
-		block = database.UnPadBlock(block)
-		data := block[:len(block)-dbInfo.ProofLen]
-
-		// check Merkle proof
-		encodedProof := block[len(block)-dbInfo.ProofLen:]
-		proof := merkle.DecodeProof(encodedProof)
-		verified, err := merkle.VerifyProof(data, proof, dbInfo.Root)
+		data, err := verifyMerkleBlock(block, ix*dbInfo.NumColumns+st.iy, dbInfo)
 		if err != nil {
-			log.Fatalf("impossible to verify proof: %v", err)
+			return nil, err
 		}
-		if !verified {
-			return nil, errors.New("REJECT!")
+		if ix == st.ix {
+			out = data
 		}
+	}
 
-		return data, nil
-	default:
-		panic("unknown PIRType")
+	return out, nil
+}
+
+// verifyMerkleBlock returns the data in the block, if the block contains a
+// valid proof that this is the data at the given index of the database.
+func verifyMerkleBlock(block []byte, index int, dbInfo *database.Info) ([]byte, error) {
+	// the data and the proof are followed by 0x80 and then only by zeros
+	end := len(block)
+	for end > 0 && block[end-1] == 0 {
+		end--
+	}
+	if end <= dbInfo.ProofLen || block[end-1] != 0x80 {
+		return nil, errors.New("REJECT!")
+	}
+	block = block[:end-1]
+	data := block[:len(block)-dbInfo.ProofLen]
+
+	// check Merkle proof
+	proof := merkle.DecodeProof(block[len(block)-dbInfo.ProofLen:])
+	if proof == nil || int(proof.Index) != index {
+		return nil, errors.New("REJECT!")
 	}
+	verified, err := merkle.VerifyProof(data, proof, dbInfo.Root)
+	if err != nil {
+		return nil, err
+	}
+	if !verified {
+		return nil, errors.New("REJECT!")
+	}
+
+	return data, nil
 }
 
 func reconstructValuePIR(answers [][]byte, dbInfo *database.Info, state *state) ([]byte, error) {
@@ -80,6 +113,9 @@ func reconstructValuePIR(answers [][]byte, dbInfo *database.Info, state *state)
 	bs := dbInfo.BlockSize
 	sum := make([]byte, bs)
 	for k := range answers {
+		if len(answers[k]) != dbInfo.NumRows*bs {
+			return nil, errors.New("invalid answer length")
+		}
 		fastxor.Bytes(sum, sum, answers[k][state.ix*bs:bs*(state.ix+1)])
 	}
 
diff --git a/lib/merkle/proof.go b/lib/merkle/proof.go
index cffa588..4f8bc13 100644
--- a/lib/merkle/proof.go
+++ b/lib/merkle/proof.go
@@ -53,6 +53,10 @@ func VerifyProof(data []byte, proof *Proof, root []byte) (bool, error) {
 //
 // This returns true if the proof is verified, otherwise false.
 func VerifyProofUsing(data []byte, proof *Proof, root []byte, hashType HashType) (bool, error) {
+	// a proof that could not be decoded verifies nothing
+	if proof == nil {
+		return false, nil
+	}
 	proofHash := generateProofHash(data, proof, hashType)
 	if bytes.Equal(root, proofHash) {
 		return true, nil
@@ -76,12 +80,21 @@ func generateProofHash(data []byte, proof *Proof, hashType HashType) []byte {
 	return proofHash
 }
 
+// DecodeProof decodes a proof encoded by EncodeProof. It returns nil if the
+// input is not the encoding of a proof.
 func DecodeProof(p []byte) *Proof {
+	if len(p) < numHashesByteSize+indexByteSize {
+		return nil
+	}
+
 	// number of hashes
 	numHashes := binary.LittleEndian.Uint32(p[:numHashesByteSize])
 
 	// hashes
 	hashLength := uint32(32) // blake3
+	if uint64(len(p)) != numHashesByteSize+uint64(numHashes)*uint64(hashLength)+indexByteSize {
+		return nil
+	}
 	hashes := make([][]byte, numHashes)
 	for i := uint32(0); i < numHashes; i++ {
 		hashes[i] = p[4+hashLength*i : 4+hashLength*(i+1)]
-- 
2.43.0


From 83aa7b2bf35dc842702980a1fa951326ccab9fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 04/31] fix: key databases of fewer than ten keys, and looking
 up an email in an empty bucket

---
 lib/database/pgp.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/database/pgp.go b/lib/database/pgp.go
index afa975c..22ee24c 100644
--- a/lib/database/pgp.go
+++ b/lib/database/pgp.go
@@ -62,7 +62,7 @@ func GenerateRealKeyBytes(dataPaths []string, rebalanced bool) (*Bytes, error) {
 	sortById(keys)
 
 	// decide on the length of the hash table
-	preSquareNumBlocks := int(float32(len(keys)) * numKeysToDBLengthRatio)
+	preSquareNumBlocks := numBlocksForKeys(len(keys))
 	numRows, numColumns := CalculateNumRowsAndColumns(preSquareNumBlocks, rebalanced)
 
 	ht := makeHashTable(keys, numRows*numColumns)
@@ -101,7 +101,7 @@ func GenerateRealKeyMerkle(dataPaths []string, rebalanced bool) (*Bytes, error)
 	sortById(keys)
 
 	// decide on the length of the hash table
-	preSquareNumBlocks := int(float32(len(keys)) * numKeysToDBLengthRatio)
+	preSquareNumBlocks := numBlocksForKeys(len(keys))
 	numRows, numColumns := CalculateNumRowsAndColumns(preSquareNumBlocks, rebalanced)
 	ht := makeHashTable(keys, numRows*numColumns)
 
@@ -146,6 +146,16 @@ func GenerateRealKeyMerkle(dataPaths []string, rebalanced bool) (*Bytes, error)
 	return m, nil
 }
 
+// numBlocksForKeys returns the length of the hash table for the given number
+// of keys, which is at least one.
+func numBlocksForKeys(numKeys int) int {
+	numBlocks := int(float32(numKeys) * numKeysToDBLengthRatio)
+	if numBlocks == 0 {
+		numBlocks = 1
+	}
+	return numBlocks
+}
+
 func makeHashTable(keys []*pgp.Key, tableLen int) map[int][]byte {
 	// prepare db
 	db := make(map[int][]byte)
@@ -176,6 +186,10 @@ func UnPadBlock(block []byte) []byte {
 	block = bytes.TrimRightFunc(block, func(b rune) bool {
 		return b == 0
 	})
+	// an empty bucket has no padding at all
+	if len(block) == 0 {
+		return block
+	}
 	// remove 0x80 preceding zeros
 	return block[:len(block)-1]
 }
-- 
2.43.0


From 1d7b21f8d6ec26eeee1daac40b2ad3a613c2e287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 05/31] fix: ECC decoding updates the candidate of the majority
 vote

---
 lib/ecc/ecc.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/ecc/ecc.go b/lib/ecc/ecc.go
index 40c2e8f..f063916 100644
--- a/lib/ecc/ecc.go
+++ b/lib/ecc/ecc.go
@@ -22,10 +22,16 @@ func (e *ECC) Encode(in uint32) []uint32 {
 
 // Boyer-Moore Majority Vote algorithm
 func (e *ECC) Decode(in []uint32) (uint32, error) {
+	if len(in) == 0 {
+		return 0, errors.New("impossible to decode an empty word")
+	}
 	decoded := in[0]
 	votes := 1
 	for i := 1; i < len(in); i++ {
-		if in[i] == decoded {
+		if votes == 0 {
+			decoded = in[i]
+			votes = 1
+		} else if in[i] == decoded {
 			votes++
 		} else {
 			votes--
-- 
2.43.0


From 6e28ba51c0e71a59459e25a79ecf8ca48c70131c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 06/31] fix: predicate client returns an error for an average
 over no entry and for malformed answers

---
 lib/client/fss.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/client/fss.go b/lib/client/fss.go
index 1a8fa45..4e8800e 100644
--- a/lib/client/fss.go
+++ b/lib/client/fss.go
@@ -81,6 +81,10 @@ func (c *clientFSS) reconstructBytes(answers [][]byte) (interface{}, error) {
 }
 
 func (c *clientFSS) reconstruct(answers [][]uint32) (uint32, error) {
+	if len(answers) != 2 || len(answers[0]) != len(answers[1]) ||
+		(len(answers[0]) != c.executions && len(answers[0]) != 2*c.executions) {
+		return 0, errors.New("invalid answers")
+	}
 	// AVG case
 	if len(answers[0]) == 2*c.executions {
 		countFirst := answers[0][:c.executions]
@@ -111,6 +115,9 @@ func (c *clientFSS) reconstruct(answers [][]uint32) (uint32, error) {
 			}
 		}
 
+		if dataCount == 0 {
+			return 0, errors.New("no matching entry to compute the average of")
+		}
 		return sumCount / dataCount, nil
 
 	} else {
-- 
2.43.0


From 4ff9f41c0a39aa34923d26eb5b132e36a6b9cf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:40 +0000
Subject: [PATCH 07/31] fix: mask every element of the FSS payload, not only
 whole groups of four

---
 lib/fss/client.go |  4 ++--
 lib/fss/common.go | 12 ++++++++++--
 lib/fss/server.go |  2 +-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/fss/client.go b/lib/fss/client.go
index 9d2ebbf..48d2deb 100644
--- a/lib/fss/client.go
+++ b/lib/fss/client.go
@@ -17,7 +17,7 @@ import (
 func ClientInitialize(blockLength int) *Fss {
 	f := new(Fss)
 	f.BlockLength = blockLength
-	initPRFLen := 4
+	initPRFLen := len(PrfKeys)
 	// Create fixed AES blocks
 	f.FixedBlocks = make([]cipher.Block, initPRFLen)
 	for i := uint(0); i < uint(initPRFLen); i++ {
@@ -30,7 +30,7 @@ func ClientInitialize(blockLength int) *Fss {
 	f.N = 256 // maximum number of bits supported by FSS
 	f.Temp = make([]byte, aes.BlockSize)
 	f.Out = make([]byte, aes.BlockSize*initPRFLen)
-	f.OutConvertBlock = make([]byte, blockLength*field.Bytes)
+	f.OutConvertBlock = make([]byte, convertBlocks(blockLength)*aes.BlockSize)
 
 	return f
 }
diff --git a/lib/fss/common.go b/lib/fss/common.go
index 0cb95eb..81a6511 100644
--- a/lib/fss/common.go
+++ b/lib/fss/common.go
@@ -49,7 +49,8 @@ func init() {
 		{2, 16, 223, 155, 240, 218, 18, 217, 66, 61, 95, 162, 213, 195, 169, 50},
 		{130, 178, 43, 30, 226, 225, 106, 13, 196, 22, 96, 191, 75, 100, 87, 221},
 		{227, 121, 10, 139, 215, 136, 201, 227, 253, 210, 170, 246, 215, 213, 65, 69},
-		{49, 194, 90, 224, 41, 253, 48, 252, 55, 167, 51, 93, 246, 176, 38, 220}}
+		{49, 194, 90, 224, 41, 253, 48, 252, 55, 167, 51, 93, 246, 176, 38, 220},
+		{164, 23, 118, 5, 209, 72, 187, 94, 31, 250, 140, 63, 177, 8, 226, 149}}
 }
 
 // Helper functions
@@ -65,8 +66,15 @@ func prf(x []byte, aesBlocks []cipher.Block, numBlocks uint, temp, out []byte) {
 	}
 }
 
+// convertBlocks returns how many AES blocks are needed to mask the given
+// number of elements
+func convertBlocks(elements int) int {
+	perBlock := aes.BlockSize / field.Bytes
+	return (elements + perBlock - 1) / perBlock
+}
+
 func convertBlock(f Fss, x []byte, out []uint32) {
 	// we can generate four uint32 numbers with a 16-bytes AES block
-	prf(x, f.FixedBlocks, uint(len(out)/4), f.Temp, f.OutConvertBlock)
+	prf(x, f.FixedBlocks, uint(convertBlocks(len(out))), f.Temp, f.OutConvertBlock)
 	field.BytesToElements(out, f.OutConvertBlock)
 }
diff --git a/lib/fss/server.go b/lib/fss/server.go
index ea404c2..a7de64c 100644
--- a/lib/fss/server.go
+++ b/lib/fss/server.go
@@ -26,7 +26,7 @@ func ServerInitialize(blockLength int) *Fss {
 	f.N = 256 // maximum number of bits supported by FSS
 	f.Temp = make([]byte, aes.BlockSize)
 	f.Out = make([]byte, aes.BlockSize*len(PrfKeys))
-	f.OutConvertBlock = make([]byte, blockLength*field.Bytes)
+	f.OutConvertBlock = make([]byte, convertBlocks(blockLength)*aes.BlockSize)
 
 	return f
 }
-- 
2.43.0


From 306ff61be4a49ad45dcf513d1dff1e53001e6fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 08/31] fix: conversion of bytes to field elements is
 deterministic and canonical

---
 lib/field/field.go | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/lib/field/field.go b/lib/field/field.go
index a26387e..f33d673 100644
--- a/lib/field/field.go
+++ b/lib/field/field.go
@@ -19,31 +19,19 @@ const (
 
 func NegateVector(in []uint32) []uint32 {
 	for i := range in {
-		in[i] = ModP - in[i]
+		in[i] = (ModP - in[i]) % ModP
 	}
 
 	return in
 }
 
-// Element converts input bytes into a field toElement.
-// It sources a new random byte string in the rare case
-// when the input bytes convert to ModP
+// toElement converts input bytes into a field element. It is deterministic,
+// because two parties who convert the same bytes must get the same element,
+// and leaves the input as it is.
 func toElement(in []byte) uint32 {
-	// Clearing the top most bit of uint32
-	in[0] &= Mask
-	// Take the first Bytes bytes
-	//out := *(*uint32)(unsafe.Pointer(&in))
-	out := binary.BigEndian.Uint32(in[:Bytes])
-	// Make sure that toElement is not equal 2^31 - 1
-	for out == ModP {
-		var buf [Bytes]byte
-		_, err := utils.RandomPRG().Read(buf[:])
-		if err != nil {
-			panic("error in randomness")
-		}
-		out = binary.BigEndian.Uint32(buf[:])
-	}
-	return out
+	// Take the first Bytes bytes, clearing the top most bit of uint32, and
+	// make sure that the element is not equal 2^31 - 1
+	return (binary.BigEndian.Uint32(in[:Bytes]) & (Mask<<24 | 0xffffff)) % ModP
 }
 
 func RandElementWithPRG(rnd io.Reader) uint32 {
-- 
2.43.0


From bf6baa0199a88c8b7937d541c74c9a867df64e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 09/31] fix: output of the PRG does not depend on the content
 of the buffer

---
 lib/utils/rand.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/utils/rand.go b/lib/utils/rand.go
index eab7c71..c52c4a6 100644
--- a/lib/utils/rand.go
+++ b/lib/utils/rand.go
@@ -104,6 +104,10 @@ func (s *PRGReader) Read(p []byte) (int, error) {
 		s.stream.XORKeyStream(buf[:], buf[:])
 		copy(p[:], buf[:])
 	} else {
+		// the output is the key stream, whatever p contains
+		for i := range p {
+			p[i] = 0
+		}
 		s.stream.XORKeyStream(p, p)
 	}
 	return len(p), nil
-- 
2.43.0


From 5c012e54ed78ca0c24d0bbcf4dd4289055cab110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 10/31] fix: refuse invalid indices and too few servers in
 point queries

---
 lib/client/client.go    | 4 ++--
 lib/client/pir_point.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index fa31183..cdc148d 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -123,8 +123,8 @@ func reconstructValuePIR(answers [][]byte, dbInfo *database.Info, state *state)
 }
 
 // return true if the query inputs are invalid for IT schemes
-func invalidQueryInputsIT(index, numServers int) bool {
-	return index < 0 && numServers < 2
+func invalidQueryInputsIT(index, numServers int, dbInfo *database.Info) bool {
+	return index < 0 || index >= dbInfo.NumRows*dbInfo.NumColumns || numServers < 2
 }
 
 func invalidQueryInputsFSS(numServers int) bool {
diff --git a/lib/client/pir_point.go b/lib/client/pir_point.go
index 1be9dc8..1fc7782 100644
--- a/lib/client/pir_point.go
+++ b/lib/client/pir_point.go
@@ -44,7 +44,7 @@ func (c *PIR) QueryBytes(in []byte, numServers int) ([][]byte, error) {
 // servers. This function performs both vector and rebalanced query depending
 // on the database representation
 func (c *PIR) Query(index int, numServers int) [][]byte {
-	if invalidQueryInputsIT(index, numServers) {
+	if invalidQueryInputsIT(index, numServers, c.dbInfo) {
 		log.Fatal("invalid query inputs")
 	}
 	// set the client state. The entries specific to VPIR are not used
-- 
2.43.0


From e4bda10ae355d2085c1d3fe7b9133634aec9df98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 11/31] fix: the scalar of an LWE query is never within the
 error bound of zero

---
 lib/client/lwe.go    | 18 +++++++++++++++---
 lib/client/lwe128.go | 20 +++++++++++++++++---
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/lib/client/lwe.go b/lib/client/lwe.go
index 4e03463..b2159c6 100644
--- a/lib/client/lwe.go
+++ b/lib/client/lwe.go
@@ -37,8 +37,7 @@ func NewLWE(rnd io.Reader, info *database.Info, params *utils.ParamsLWE) *LWE {
 }
 
 func (c *LWE) Query(i, j int) *matrix.Matrix {
-	// Lazy way to sample a random scalar
-	rand := matrix.NewRandom(c.rnd, 1, 1)
+	t := c.randomScalar()
 
 	// digest is already stored in the state when receiving the database info
 	c.state = &StateLWE{
@@ -47,7 +46,7 @@ func (c *LWE) Query(i, j int) *matrix.Matrix {
 		secret: matrix.NewRandom(c.rnd, 1, c.params.N),
 		i:      i,
 		j:      j,
-		t:      rand.Get(0, 0),
+		t:      t,
 	}
 
 	// Query has dimension 1 x l
@@ -65,6 +64,19 @@ func (c *LWE) Query(i, j int) *matrix.Matrix {
 	return query
 }
 
+// randomScalar samples the random scalar that encodes a bit equal to one. It
+// must be far enough from zero for the two bits to stay apart in spite of the
+// error.
+func (c *LWE) randomScalar() uint32 {
+	for {
+		// Lazy way to sample a random scalar
+		t := matrix.NewRandom(c.rnd, 1, 1).Get(0, 0)
+		if t >= 2*c.params.B && t <= -(2*c.params.B) {
+			return t
+		}
+	}
+}
+
 func (c *LWE) QueryBytes(index int) ([]byte, error) {
 	i, j := utils.VectorToMatrixIndices(index, c.dbInfo.NumColumns)
 	m := c.Query(i, j)
diff --git a/lib/client/lwe128.go b/lib/client/lwe128.go
index 1835bdf..1dd40c3 100644
--- a/lib/client/lwe128.go
+++ b/lib/client/lwe128.go
@@ -38,8 +38,7 @@ func NewLWE128(rnd io.Reader, info *database.Info, params *utils.ParamsLWE) *LWE
 }
 
 func (c *LWE128) Query(i, j int) *matrix.Matrix128 {
-	// Lazy way to sample a random scalar
-	rand := matrix.NewRandom128(c.rnd, 1, 1)
+	t := c.randomScalar()
 
 	// digest is already stored in the state when receiving the database info
 	c.state = &StateLWE128{
@@ -48,7 +47,7 @@ func (c *LWE128) Query(i, j int) *matrix.Matrix128 {
 		secret: matrix.NewRandom128(c.rnd, 1, c.params.N),
 		i:      i,
 		j:      j,
-		t:      rand.Get(0, 0),
+		t:      t,
 	}
 
 	// Query has dimension 1 x l
@@ -66,6 +65,21 @@ func (c *LWE128) Query(i, j int) *matrix.Matrix128 {
 	return query
 }
 
+// randomScalar samples the random scalar that encodes a bit equal to one. It
+// must be far enough from zero for the two bits to stay apart in spite of the
+// error.
+func (c *LWE128) randomScalar() uint128.Uint128 {
+	min := uint128.From64(2 * uint64(c.params.B))
+	max := uint128.Max.Sub(min)
+	for {
+		// Lazy way to sample a random scalar
+		t := matrix.NewRandom128(c.rnd, 1, 1).Get(0, 0)
+		if t.Cmp(min) >= 0 && t.Cmp(max) <= 0 {
+			return t
+		}
+	}
+}
+
 func (c *LWE128) QueryBytes(index int) ([]byte, error) {
 	i, j := utils.VectorToMatrixIndices(index, c.dbInfo.NumColumns)
 	m := c.Query(i, j)
-- 
2.43.0


From d8da2492727dfbbfe3710783f8bafdd07cd2129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 12/31] fix: LWE servers and clients report malformed queries
 and answers as errors

---
 lib/client/amplify.go   |  3 +++
 lib/client/lwe.go       |  3 +++
 lib/client/lwe128.go    |  3 +++
 lib/matrix/matrix.go    | 27 +++++++++++++++++++++++++++
 lib/matrix/matrix128.go |  9 +++++++++
 lib/server/amplify.go   | 13 ++++++++++++-
 lib/server/lwe.go       |  8 +++++++-
 lib/server/lwe128.go    |  8 +++++++-
 8 files changed, 71 insertions(+), 3 deletions(-)

diff --git a/lib/client/amplify.go b/lib/client/amplify.go
index 18ac684..ae70374 100644
--- a/lib/client/amplify.go
+++ b/lib/client/amplify.go
@@ -46,6 +46,9 @@ func (a *Amplify) QueryBytes(index int) ([]byte, error) {
 }
 
 func (a *Amplify) Reconstruct(answers []*matrix.Matrix) (uint32, error) {
+	if len(answers) != a.repetitions {
+		return 0, errors.New("REJECT")
+	}
 	outputs := make([]uint32, a.repetitions)
 	var err error
 	for i := range outputs {
diff --git a/lib/client/lwe.go b/lib/client/lwe.go
index b2159c6..c82f6ca 100644
--- a/lib/client/lwe.go
+++ b/lib/client/lwe.go
@@ -84,6 +84,9 @@ func (c *LWE) QueryBytes(index int) ([]byte, error) {
 }
 
 func (c *LWE) Reconstruct(answers *matrix.Matrix) (uint32, error) {
+	if answers == nil || answers.Rows() != 1 || answers.Cols() != c.params.M || answers.Len() != c.params.M {
+		return 0, errors.New("REJECT")
+	}
 	s_trans_d := matrix.Mul(c.state.secret, c.state.digest)
 	answers.Sub(s_trans_d)
 
diff --git a/lib/client/lwe128.go b/lib/client/lwe128.go
index 1dd40c3..8dc58b2 100644
--- a/lib/client/lwe128.go
+++ b/lib/client/lwe128.go
@@ -87,6 +87,9 @@ func (c *LWE128) QueryBytes(index int) ([]byte, error) {
 }
 
 func (c *LWE128) Reconstruct(answers *matrix.Matrix128) (uint32, error) {
+	if answers == nil || answers.Rows() != 1 || answers.Cols() != c.params.M || answers.Len() != c.params.M {
+		return 0, errors.New("REJECT")
+	}
 	s_trans_d := matrix.Mul128(c.state.secret, c.state.digest)
 	answers.Sub(s_trans_d)
 
diff --git a/lib/matrix/matrix.go b/lib/matrix/matrix.go
index 4774d85..dfd54fa 100644
--- a/lib/matrix/matrix.go
+++ b/lib/matrix/matrix.go
@@ -47,7 +47,12 @@ func MatrixToBytes(in *Matrix) []byte {
 	return append(params, utils.Uint32SliceToByteSlice(in.data)...)
 }
 
+// BytesToMatrix decodes a matrix encoded by MatrixToBytes. It returns nil if
+// the input is not the encoding of a matrix.
 func BytesToMatrix(in []byte) *Matrix {
+	if !validEncoding(in, 4) {
+		return nil
+	}
 	// retrieve the matrix dimensions
 	r := in[:4]
 	rows := int(binary.BigEndian.Uint32(r))
@@ -61,6 +66,17 @@ func BytesToMatrix(in []byte) *Matrix {
 	}
 }
 
+// validEncoding tells whether the input is the encoding of a matrix whose
+// elements have the given number of bytes.
+func validEncoding(in []byte, elementSize int) bool {
+	if len(in) < 8 || (len(in)-8)%elementSize != 0 {
+		return false
+	}
+	rows := uint64(binary.BigEndian.Uint32(in[:4]))
+	cols := uint64(binary.BigEndian.Uint32(in[4:8]))
+	return rows*cols == uint64((len(in)-8)/elementSize)
+}
+
 func MatricesToBytes(in []*Matrix) []byte {
 	// the matrices are all the same, so
 	// we can use MatrixToBytes to see how many
@@ -83,9 +99,17 @@ func MatricesToBytes(in []*Matrix) []byte {
 	return out
 }
 
+// BytesToMatrices decodes matrices encoded by MatricesToBytes. It returns nil
+// if the input is not the encoding of matrices.
 func BytesToMatrices(in []byte) []*Matrix {
+	if len(in) < 4 {
+		return nil
+	}
 	// retrieve length of single encoded matrix
 	length := int(binary.BigEndian.Uint32(in[:4]))
+	if length == 0 || (len(in)-4)%length != 0 {
+		return nil
+	}
 
 	// how many matrices?
 	n := uint32((len(in) - 4) / length)
@@ -94,6 +118,9 @@ func BytesToMatrices(in []byte) []*Matrix {
 
 	for i := range out {
 		out[i] = BytesToMatrix(in[4+i*length : 4+(i+1)*length])
+		if out[i] == nil {
+			return nil
+		}
 	}
 
 	return out
diff --git a/lib/matrix/matrix128.go b/lib/matrix/matrix128.go
index a0f6ab2..254a361 100644
--- a/lib/matrix/matrix128.go
+++ b/lib/matrix/matrix128.go
@@ -43,7 +43,12 @@ func Matrix128ToBytes(in *Matrix128) []byte {
 	return append(params, out...)
 }
 
+// BytesToMatrix128 decodes a matrix encoded by Matrix128ToBytes. It returns
+// nil if the input is not the encoding of a matrix.
 func BytesToMatrix128(in []byte) *Matrix128 {
+	if !validEncoding(in, 16) {
+		return nil
+	}
 	// retrieve the matrix dimensions
 	rows := int(binary.BigEndian.Uint32(in[:4]))
 	cols := int(binary.BigEndian.Uint32(in[4:]))
@@ -104,6 +109,10 @@ func (m *Matrix128) Cols() int {
 	return m.cols
 }
 
+func (m *Matrix128) Len() int {
+	return len(m.data)
+}
+
 func BinaryMul128(a *Matrix128, b *MatrixBytes) *Matrix128 {
 	if a.cols != b.rows {
 		panic("Dimension mismatch")
diff --git a/lib/server/amplify.go b/lib/server/amplify.go
index aaaaabb..1296c00 100644
--- a/lib/server/amplify.go
+++ b/lib/server/amplify.go
@@ -1,6 +1,8 @@
 package server
 
 import (
+	"errors"
+
 	"github.com/si-co/vpir-code/lib/database"
 	"github.com/si-co/vpir-code/lib/matrix"
 )
@@ -29,7 +31,16 @@ func (a *Amplify) Answer(qq []*matrix.Matrix) []*matrix.Matrix {
 }
 
 func (a *Amplify) AnswerBytes(qq []byte) ([]byte, error) {
-	ans := a.Answer(matrix.BytesToMatrices(qq))
+	queries := matrix.BytesToMatrices(qq)
+	if len(queries) == 0 {
+		return nil, errors.New("invalid queries")
+	}
+	for _, q := range queries {
+		if q.Rows() != 1 || q.Cols() != a.lwe.db.NumRows {
+			return nil, errors.New("invalid query")
+		}
+	}
+	ans := a.Answer(queries)
 
 	// encode
 	return matrix.MatricesToBytes(ans), nil
diff --git a/lib/server/lwe.go b/lib/server/lwe.go
index 8cc167d..d63de77 100644
--- a/lib/server/lwe.go
+++ b/lib/server/lwe.go
@@ -1,6 +1,8 @@
 package server
 
 import (
+	"errors"
+
 	"github.com/si-co/vpir-code/lib/database"
 	"github.com/si-co/vpir-code/lib/matrix"
 )
@@ -18,7 +20,11 @@ func (s *LWE) DBInfo() *database.Info {
 }
 
 func (s *LWE) AnswerBytes(q []byte) ([]byte, error) {
-	a := s.Answer(matrix.BytesToMatrix(q))
+	query := matrix.BytesToMatrix(q)
+	if query == nil || query.Rows() != 1 || query.Cols() != s.db.NumRows {
+		return nil, errors.New("invalid query")
+	}
+	a := s.Answer(query)
 	return matrix.MatrixToBytes(a), nil
 }
 
diff --git a/lib/server/lwe128.go b/lib/server/lwe128.go
index caed9cb..d07a752 100644
--- a/lib/server/lwe128.go
+++ b/lib/server/lwe128.go
@@ -1,6 +1,8 @@
 package server
 
 import (
+	"errors"
+
 	"github.com/si-co/vpir-code/lib/database"
 	"github.com/si-co/vpir-code/lib/matrix"
 )
@@ -18,7 +20,11 @@ func (s *LWE128) DBInfo() *database.Info {
 }
 
 func (s *LWE128) AnswerBytes(q []byte) ([]byte, error) {
-	a := s.Answer(matrix.BytesToMatrix128(q))
+	query := matrix.BytesToMatrix128(q)
+	if query == nil || query.Rows() != 1 || query.Cols() != s.db.NumRows {
+		return nil, errors.New("invalid query")
+	}
+	a := s.Answer(query)
 	return matrix.Matrix128ToBytes(a), nil
 }
 
-- 
2.43.0


From 802b9257a06b2d4b4c86dbb96e6c07c8acfc8d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 13/31] fix: negative Gaussian samples modulo 2^128

---
 lib/matrix/matrix128.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/matrix/matrix128.go b/lib/matrix/matrix128.go
index 254a361..0a164cc 100644
--- a/lib/matrix/matrix128.go
+++ b/lib/matrix/matrix128.go
@@ -86,7 +86,7 @@ func NewGauss128(r int, c int) *Matrix128 {
 		if g >= 0 {
 			m.data[i] = uint128.From64(uint64(g))
 		} else {
-			m.data[i] = uint128.Max.Sub64(uint64(-g))
+			m.data[i] = uint128.From64(0).SubWrap64(uint64(-g))
 		}
 	}
 
-- 
2.43.0


From 3c20ce85108001bf747a4cd1f69bd19222cfb454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 14/31] fix: digests of DH databases with fewer rows than
 routines

---
 lib/database/elliptic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/database/elliptic.go b/lib/database/elliptic.go
index ccdd2d2..272edbb 100644
--- a/lib/database/elliptic.go
+++ b/lib/database/elliptic.go
@@ -42,6 +42,10 @@ func CreateRandomEllipticWithDigest(rnd io.Reader, dbLen int, g group.Group, reb
 		if end > numRows {
 			end = numRows
 		}
+		// small databases have fewer rows than there are routines
+		if begin > end {
+			begin = end
+		}
 		replyChan := make(chan []byte, 1)
 		replies[i] = replyChan
 		go computeDigests(begin, end, data, numColumns, g, h, replyChan)
-- 
2.43.0


From 7e04dbbc1fe3a16a44612077eebcd99a533ba214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 15/31] fix: fixed-size encoding of the group identity, and
 malformed DH queries and answers are errors

---
 lib/client/dh.go         | 14 ++++++++------
 lib/database/elliptic.go | 22 +++++++++++++++++++---
 lib/server/dh.go         |  5 +++++
 3 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/lib/client/dh.go b/lib/client/dh.go
index 07983bf..4704206 100644
--- a/lib/client/dh.go
+++ b/lib/client/dh.go
@@ -71,22 +71,24 @@ func (c *DH) QueryBytes(index int) ([]byte, error) {
 
 func (c *DH) ReconstructBytes(a []byte) (interface{}, error) {
 	g := c.dbInfo.Group
-	digSize := c.dbInfo.ElementSize
 	rneg := g.NewScalar().Neg(c.state.r)
 	// get the tags of all the rows
 	answer, err := database.UnmarshalGroupElements(a, c.dbInfo.Group, c.dbInfo.ElementSize)
 	if err != nil {
 		return nil, err
 	}
+	digests, err := database.UnmarshalGroupElements(c.dbInfo.SubDigests, c.dbInfo.Group, c.dbInfo.ElementSize)
+	if err != nil {
+		return nil, err
+	}
+	if len(answer) != c.dbInfo.NumRows || len(digests) != c.dbInfo.NumRows {
+		return nil, errors.New("reject")
+	}
 	m := g.Identity()
 	var res byte
 	for i := 0; i < c.dbInfo.NumRows; i++ {
 		// get the row digest and raise it to a power r
-		d := g.NewElement()
-		err = d.UnmarshalBinary(c.dbInfo.SubDigests[i*digSize : (i+1)*digSize])
-		if err != nil {
-			return nil, err
-		}
+		d := digests[i]
 		d.Mul(d, rneg)
 		m.Add(d, answer[i])
 		if !m.IsIdentity() && !m.IsEqual(c.state.ht) {
diff --git a/lib/database/elliptic.go b/lib/database/elliptic.go
index 272edbb..8e6e790 100644
--- a/lib/database/elliptic.go
+++ b/lib/database/elliptic.go
@@ -1,8 +1,10 @@
 package database
 
 import (
+	"bytes"
 	"crypto"
 	"encoding/binary"
+	"errors"
 	"io"
 	"log"
 	"math"
@@ -77,7 +79,8 @@ func CreateRandomEllipticWithDigest(rnd io.Reader, dbLen int, g group.Group, reb
 }
 
 func computeDigests(begin, end int, data []byte, rowLen int, g group.Group, h crypto.Hash, replyTo chan<- []byte) {
-	digs := make([]byte, 0, (end-begin)*h.Size())
+	elemSize := getGroupElementSize(g)
+	digs := make([]byte, 0, (end-begin)*elemSize)
 	for i := begin; i < end; i++ {
 		d := g.Identity()
 		for j := 0; j < rowLen; j++ {
@@ -85,7 +88,7 @@ func computeDigests(begin, end int, data []byte, rowLen int, g group.Group, h cr
 				d.Add(d, HashIndexToGroup(uint64(j), g))
 			}
 		}
-		tmp, err := d.MarshalBinaryCompress()
+		tmp, err := MarshalGroupElements([]group.Element{d}, elemSize)
 		if err != nil {
 			log.Fatal(err)
 		}
@@ -109,10 +112,15 @@ func CommitScalarToIndex(x group.Scalar, j uint64, g group.Group) group.Element
 	return g.NewElement().Mul(H, x)
 }
 
-// Marshal a slice of group elements
+// Marshal a slice of group elements, each of them to marshalledLen bytes. The
+// identity, which some groups encode in fewer bytes, is encoded as all zeros.
 func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error) {
 	encoded := make([]byte, 0, marshalledLen*len(q))
 	for _, el := range q {
+		if el.IsIdentity() {
+			encoded = append(encoded, make([]byte, marshalledLen)...)
+			continue
+		}
 		tmp, err := el.MarshalBinaryCompress()
 		if err != nil {
 			return nil, err
@@ -124,9 +132,17 @@ func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error)
 
 // Unmarshal a slice of group elements
 func UnmarshalGroupElements(q []byte, g group.Group, elemSize int) ([]group.Element, error) {
+	if len(q)%elemSize != 0 {
+		return nil, errors.New("invalid length of encoded group elements")
+	}
 	var err error
 	decoded := make([]group.Element, 0, len(q)/elemSize)
+	identity := make([]byte, elemSize)
 	for i := 0; i < len(q); i += elemSize {
+		if bytes.Equal(q[i:i+elemSize], identity) {
+			decoded = append(decoded, g.Identity())
+			continue
+		}
 		elem := g.NewElement()
 		err = elem.UnmarshalBinary(q[i : i+elemSize])
 		if err != nil {
diff --git a/lib/server/dh.go b/lib/server/dh.go
index 772c33b..fd0c94a 100644
--- a/lib/server/dh.go
+++ b/lib/server/dh.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"errors"
 	"math"
 
 	"github.com/cloudflare/circl/group"
@@ -22,6 +23,10 @@ func (s *DH) AnswerBytes(q []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(query) != s.db.NumColumns {
+		return nil, errors.New("invalid number of group elements in the query")
+	}
+
 	NGoRoutines := 1
 	// make sure that we do not need up with routines processing 0 elements
 	if NGoRoutines > s.db.NumRows {
-- 
2.43.0


From c8b6be770cef9f52838ffa32b77719aad844f6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 16/31] fix: FSS evaluation does not ignore bit 256 of the
 input

---
 lib/fss/server.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/fss/server.go b/lib/fss/server.go
index a7de64c..c3d0665 100644
--- a/lib/fss/server.go
+++ b/lib/fss/server.go
@@ -41,11 +41,9 @@ func (f Fss) EvaluatePF(serverNum byte, k FssKeyEq2P, x []bool, out []uint32) {
 	tmp := make([]uint32, len(out))
 	for i := uint(0); i < f.NumBits; i++ {
 		var xBit byte = 0
-		if i != f.N {
-			// original: xBit = byte(getBit(x, (f.N - f.NumBits + i + 1), f.N))
-			if x[i] {
-				xBit = 1
-			}
+		// original: xBit = byte(getBit(x, (f.N - f.NumBits + i + 1), f.N))
+		if x[i] {
+			xBit = 1
 		}
 
 		prf(sCurr, f.FixedBlocks, 3, f.Temp, f.Out)
-- 
2.43.0


From 34b3c3563dd3a635aa49dc941158603481c67d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 17/31] fix: creation time queries match in every time zone of
 the server

---
 lib/query/query.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/query/query.go b/lib/query/query.go
index e150f60..cd0d290 100644
--- a/lib/query/query.go
+++ b/lib/query/query.go
@@ -191,7 +191,8 @@ func (i *Info) IdForPubKeyAlgo(pka packet.PublicKeyAlgorithm) []bool {
 }
 
 func (i *Info) IdForCreationTime(t time.Time) ([]bool, error) {
-	binaryMatch, err := t.MarshalBinary()
+	// the encoding contains the time zone, which must not matter
+	binaryMatch, err := t.UTC().MarshalBinary()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 8629b0577901b1292072c45fa8e57d6dc22cb1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 18/31] fix: point servers report queries of the wrong length
 as errors

---
 lib/server/point.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lib/server/point.go b/lib/server/point.go
index 86e0031..f6559f0 100644
--- a/lib/server/point.go
+++ b/lib/server/point.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"errors"
 	"math/bits"
 	"runtime"
 
@@ -48,9 +49,27 @@ func (s *PIR) DBInfo() *database.Info {
 
 // AnswerBytes computes the answer for the given query encoded in bytes
 func (s *PIR) AnswerBytes(q []byte) ([]byte, error) {
+	if !s.validQuery(q) {
+		return nil, errors.New("invalid query length")
+	}
 	return s.Answer(q), nil
 }
 
+// validQuery tells whether the query is long enough for the database
+func (s *PIR) validQuery(q []byte) bool {
+	if s.numServers == 2 {
+		// the key contains a seed and a bit, a correction word for each level
+		// that is not in the final block, and the final block
+		levels := bits.Len(uint(s.db.NumColumns)) - 7
+		if levels < 0 {
+			levels = 0
+		}
+		return len(q) == 17+18*levels+16
+	}
+	// one bit per column
+	return len(q) >= (s.db.NumColumns+7)/8
+}
+
 // Answer computes the answer for the given query
 func (s *PIR) Answer(q []byte) []byte {
 	nRows := s.db.NumRows
-- 
2.43.0


From 007ca60b35ac1808127688f6425e2b1eb0fd6f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 19/31] fix: predicate servers report queries they cannot
 answer as errors

---
 lib/server/fss.go | 58 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/lib/server/fss.go b/lib/server/fss.go
index dd2a920..6a14ca0 100644
--- a/lib/server/fss.go
+++ b/lib/server/fss.go
@@ -2,7 +2,9 @@ package server
 
 import (
 	"bytes"
+	"crypto/aes"
 	"encoding/gob"
+	"errors"
 	"time"
 
 	"github.com/si-co/vpir-code/lib/database"
@@ -33,12 +35,68 @@ func (s *serverFSS) answerBytes(q []byte, out, tmp []uint32) ([]byte, error) {
 		return nil, err
 	}
 
+	if err := s.checkQuery(query, len(out)); err != nil {
+		return nil, err
+	}
+
 	// get answer
 	a := s.answer(query, out, tmp)
 
 	return utils.Uint32SliceToByteSlice(a), nil
 }
 
+// checkQuery returns an error if the given query, which comes from a client,
+// is not one that can be answered.
+func (s *serverFSS) checkQuery(q *query.FSS, executions int) error {
+	if q == nil || q.Info == nil {
+		return errors.New("incomplete query")
+	}
+	if q.Sum || (q.Avg && !q.And) {
+		return errors.New("query not recognized")
+	}
+	if q.FromStart < 0 || q.FromEnd < 0 {
+		return errors.New("invalid range of the email")
+	}
+
+	// number of input bits that are evaluated
+	email := 128
+	if q.FromStart > 0 {
+		email = 8 * q.FromStart
+	} else if q.FromEnd > 0 {
+		email = 8 * q.FromEnd
+	}
+	var numBits int
+	switch {
+	case q.Avg:
+		numBits = email
+	case q.And:
+		numBits = 32 + email
+	case q.Target == query.UserId:
+		numBits = email
+	case q.Target == query.PubKeyAlgo:
+		numBits = 8
+	case q.Target == query.CreationTime:
+		numBits = 120
+	default:
+		return errors.New("unknown target")
+	}
+
+	// there is a correction word for each of them
+	if email < 0 || numBits < 0 || len(q.FssKey.CW) < numBits {
+		return errors.New("FSS key too short")
+	}
+	for _, cw := range q.FssKey.CW {
+		if len(cw) != aes.BlockSize+2 {
+			return errors.New("invalid correction word")
+		}
+	}
+	if len(q.FssKey.FinalCW) != executions {
+		return errors.New("invalid final correction word")
+	}
+
+	return nil
+}
+
 func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 	numIdentifiers := s.db.NumColumns
 
-- 
2.43.0


From e7fa0e24fbbdd3a7d03aaf3acebf04057f85dba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 20/31] fix: configurations whose servers are not numbered from
 zero are errors

---
 lib/utils/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/utils/config.go b/lib/utils/config.go
index 29686fe..2c34e67 100644
--- a/lib/utils/config.go
+++ b/lib/utils/config.go
@@ -35,6 +35,9 @@ func LoadConfig(configFile string) (*Config, error) {
 		if err != nil {
 			return nil, xerrors.Errorf("could not convert server index to integer: %v", err)
 		}
+		if i < 0 || i >= len(addresses) || addresses[i] != "" {
+			return nil, xerrors.Errorf("the servers are not numbered from 0 to %d: %v", len(addresses)-1, index)
+		}
 		addresses[i] = fmt.Sprintf("%s:%d", server.IP, server.Port)
 	}
 	c.Addresses = addresses
-- 
2.43.0


From 4587510073ef3bbeedc5687509abb9fe4cc0beeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 21/31] fix: deployed point servers use the two-server scheme
 with two servers

---
 cmd/grpc/server/main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index 904ca46..d47e826 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -139,10 +139,15 @@ func main() {
 	var s server.Server
 	switch *scheme {
 	case "pointPIR", "pointVPIR":
+		// the clients use distributed point functions with two servers
+		newPIR := server.NewPIR
+		if len(config.Addresses) == 2 {
+			newPIR = server.NewPIRTwo
+		}
 		if *cores != -1 && *experiment {
-			s = server.NewPIR(dbBytes, *cores)
+			s = newPIR(dbBytes, *cores)
 		} else {
-			s = server.NewPIR(dbBytes)
+			s = newPIR(dbBytes)
 		}
 	case "complexPIR":
 		if *cores != -1 && *experiment {
-- 
2.43.0


From 742cd479c7a1cec8dce38ac5a02b934adaa31f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 22/31] fix: the client sends the i-th query to the i-th server

---
 cmd/grpc/client/main.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/cmd/grpc/client/main.go b/cmd/grpc/client/main.go
index 883a931..c882297 100644
--- a/cmd/grpc/client/main.go
+++ b/cmd/grpc/client/main.go
@@ -34,7 +34,7 @@ const (
 type localClient struct {
 	ctx         context.Context
 	callOptions []grpc.CallOption
-	connections map[string]*grpc.ClientConn
+	connections []*grpc.ClientConn // in the order of the servers
 
 	prg        *utils.PRGReader
 	config     *utils.Config
@@ -125,14 +125,14 @@ func (lc *localClient) connectToServers() error {
 	}
 
 	// connect to servers and store connections
-	lc.connections = make(map[string]*grpc.ClientConn)
+	lc.connections = make([]*grpc.ClientConn, 0, len(lc.config.Addresses))
 	for _, s := range lc.config.Addresses {
 		conn, err := connectToServer(creds, s)
 		if err != nil {
 			return xerrors.Errorf("failed to connect: %v", err)
 		}
 
-		lc.connections[s] = conn
+		lc.connections = append(lc.connections, conn)
 	}
 
 	return nil
@@ -396,26 +396,18 @@ func (lc *localClient) runQueries(queries [][]byte) [][]byte {
 	defer cancel()
 
 	wg := sync.WaitGroup{}
-	resCh := make(chan []byte, len(lc.connections))
-	j := 0
-	for _, conn := range lc.connections {
+	// answers of all the servers, in the order of the servers
+	answers := make([][]byte, len(lc.connections))
+	for j, conn := range lc.connections {
 		wg.Add(1)
 		go func(j int, conn *grpc.ClientConn) {
-			resCh <- queryServer(subCtx, conn, lc.callOptions, queries[j])
+			answers[j] = queryServer(subCtx, conn, lc.callOptions, queries[j])
 			wg.Done()
 		}(j, conn)
-		j++
 	}
 	wg.Wait()
-	close(resCh)
-
-	// combinate answers of all the servers
-	q := make([][]byte, 0)
-	for v := range resCh {
-		q = append(q, v)
-	}
 
-	return q
+	return answers
 }
 
 func queryServer(ctx context.Context, conn *grpc.ClientConn, opts []grpc.CallOption, query []byte) []byte {
-- 
2.43.0


From 63c1b276fdeb433c55fa80863d057a6ab6fc74a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 23/31] fix: clients compare everything the servers report
 about the database

---
 cmd/grpc/client/main.go        |  6 +-----
 cmd/grpc/client/manager/mod.go |  5 +----
 lib/database/db.go             | 18 ++++++++++++++++++
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/cmd/grpc/client/main.go b/cmd/grpc/client/main.go
index c882297..1a45128 100644
--- a/cmd/grpc/client/main.go
+++ b/cmd/grpc/client/main.go
@@ -439,11 +439,7 @@ func connectToServer(creds credentials.TransportCredentials, address string) (*g
 
 func equalDBInfo(info []*database.Info) bool {
 	for i := range info {
-		if info[0].NumRows != info[i].NumRows ||
-			info[0].NumColumns != info[i].NumColumns ||
-			info[0].BlockSize != info[i].BlockSize {
-			//info[0].IDLength != info[i].IDLength ||
-			//info[0].KeyLength != info[i].KeyLength {
+		if !info[0].Equal(info[i]) {
 			return false
 		}
 	}
diff --git a/cmd/grpc/client/manager/mod.go b/cmd/grpc/client/manager/mod.go
index 3b3b09c..e1cae7e 100644
--- a/cmd/grpc/client/manager/mod.go
+++ b/cmd/grpc/client/manager/mod.go
@@ -170,10 +170,7 @@ func (a *Actor) GetDBInfos() ([]database.Info, error) {
 
 	// check if db info are all equal before returning
 	for i := range dbInfo {
-		if dbInfo[0].NumRows != dbInfo[i].NumRows ||
-			dbInfo[0].NumColumns != dbInfo[i].NumColumns ||
-			dbInfo[0].BlockSize != dbInfo[i].BlockSize {
-
+		if !dbInfo[0].Equal(&dbInfo[i]) {
 			return nil, xerrors.Errorf("db not equal: %v", dbInfo)
 		}
 	}
diff --git a/lib/database/db.go b/lib/database/db.go
index d99fb55..424a31f 100644
--- a/lib/database/db.go
+++ b/lib/database/db.go
@@ -1,6 +1,7 @@
 package database
 
 import (
+	"bytes"
 	"crypto"
 	"encoding/binary"
 	"io"
@@ -72,6 +73,23 @@ type Merkle struct {
 	ProofLen int
 }
 
+// Equal tells whether the two databases have the same shape, retrieval scheme
+// and Merkle tree.
+func (i *Info) Equal(other *Info) bool {
+	if (i.Merkle == nil) != (other.Merkle == nil) {
+		return false
+	}
+	if i.Merkle != nil &&
+		(!bytes.Equal(i.Root, other.Root) || i.ProofLen != other.ProofLen) {
+		return false
+	}
+
+	return i.NumRows == other.NumRows &&
+		i.NumColumns == other.NumColumns &&
+		i.BlockSize == other.BlockSize &&
+		i.PIRType == other.PIRType
+}
+
 func NewKeysDB(info Info) *DB {
 	return &DB{
 		Info:     info,
-- 
2.43.0


From 093087e75325b154364bf7790792d3ef622ae42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 24/31] fix: random matrices do not extend beyond their memory

---
 lib/matrix/matrix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/matrix/matrix.go b/lib/matrix/matrix.go
index dfd54fa..a057e04 100644
--- a/lib/matrix/matrix.go
+++ b/lib/matrix/matrix.go
@@ -136,7 +136,9 @@ func NewRandom(rnd io.Reader, r int, c int) *Matrix {
 	m := New(r, c)
 
 	// ugly hack for performance
-	m.data = *(*[]uint32)(unsafe.Pointer(&b))
+	if len(m.data) > 0 {
+		m.data = unsafe.Slice((*uint32)(unsafe.Pointer(&b[0])), len(m.data))
+	}
 
 	return m
 }
-- 
2.43.0


From aa40f1faadad4c73b683bf73039bb95725666bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 25/31] fix: contents of random byte databases match their
 declared shape

---
 lib/database/bytes.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/database/bytes.go b/lib/database/bytes.go
index e3ef760..00326ae 100644
--- a/lib/database/bytes.go
+++ b/lib/database/bytes.go
@@ -47,13 +47,14 @@ func InitBytes(numRows, numColumns, blockLen int) *Bytes {
 // CreateRandomBytes return a random bytes database.
 // blockLen must be the number of bytes in a block, as a byte is the element
 func CreateRandomBytes(rnd io.Reader, dbLen, numRows, blockLen int) *Bytes {
+	numColumns := dbLen / (8 * numRows * blockLen)
+
 	// sample random entries
-	entries := make([]byte, dbLen/8)
+	entries := make([]byte, numRows*numColumns*blockLen)
 	if _, err := rnd.Read(entries); err != nil {
 		log.Fatal(err)
 	}
 
-	numColumns := dbLen / (8 * numRows * blockLen)
 	blockLens := make([]int, numRows*numColumns)
 	for i := 0; i < numRows*numColumns; i++ {
 		blockLens[i] = blockLen
-- 
2.43.0


From e70c614c850d3b99c866e9e69ae5182fa879aa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 26/31] fix: single-server clients refuse indices outside the
 database

---
 lib/client/amplify.go | 3 +++
 lib/client/client.go  | 5 +++++
 lib/client/dh.go      | 3 +++
 lib/client/lwe.go     | 3 +++
 lib/client/lwe128.go  | 3 +++
 5 files changed, 17 insertions(+)

diff --git a/lib/client/amplify.go b/lib/client/amplify.go
index ae70374..0793368 100644
--- a/lib/client/amplify.go
+++ b/lib/client/amplify.go
@@ -38,6 +38,9 @@ func (a *Amplify) Query(i, j int) []*matrix.Matrix {
 }
 
 func (a *Amplify) QueryBytes(index int) ([]byte, error) {
+	if invalidQueryInputsSingle(index, a.lwes[0].dbInfo) {
+		return nil, errors.New("invalid query inputs")
+	}
 	i, j := utils.VectorToMatrixIndices(index, a.lwes[0].dbInfo.NumColumns)
 	ms := a.Query(i, j)
 
diff --git a/lib/client/client.go b/lib/client/client.go
index cdc148d..9bb1a08 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -127,6 +127,11 @@ func invalidQueryInputsIT(index, numServers int, dbInfo *database.Info) bool {
 	return index < 0 || index >= dbInfo.NumRows*dbInfo.NumColumns || numServers < 2
 }
 
+// return true if the query inputs are invalid for single-server schemes
+func invalidQueryInputsSingle(index int, dbInfo *database.Info) bool {
+	return index < 0 || index >= dbInfo.NumRows*dbInfo.NumColumns
+}
+
 func invalidQueryInputsFSS(numServers int) bool {
 	return numServers != 2
 }
diff --git a/lib/client/dh.go b/lib/client/dh.go
index 4704206..397f0e2 100644
--- a/lib/client/dh.go
+++ b/lib/client/dh.go
@@ -37,6 +37,9 @@ func NewDH(rnd io.Reader, info *database.Info) *DH {
 // QueryBytes takes as input the index of an entry in the database and returns
 // the query for the server encoded in bytes
 func (c *DH) QueryBytes(index int) ([]byte, error) {
+	if invalidQueryInputsSingle(index, c.dbInfo) {
+		return nil, errors.New("invalid query inputs")
+	}
 	g := c.dbInfo.Group
 
 	// sample two random scalars
diff --git a/lib/client/lwe.go b/lib/client/lwe.go
index c82f6ca..def52a7 100644
--- a/lib/client/lwe.go
+++ b/lib/client/lwe.go
@@ -78,6 +78,9 @@ func (c *LWE) randomScalar() uint32 {
 }
 
 func (c *LWE) QueryBytes(index int) ([]byte, error) {
+	if invalidQueryInputsSingle(index, c.dbInfo) {
+		return nil, errors.New("invalid query inputs")
+	}
 	i, j := utils.VectorToMatrixIndices(index, c.dbInfo.NumColumns)
 	m := c.Query(i, j)
 	return matrix.MatrixToBytes(m), nil
diff --git a/lib/client/lwe128.go b/lib/client/lwe128.go
index 8dc58b2..a5a536e 100644
--- a/lib/client/lwe128.go
+++ b/lib/client/lwe128.go
@@ -81,6 +81,9 @@ func (c *LWE128) randomScalar() uint128.Uint128 {
 }
 
 func (c *LWE128) QueryBytes(index int) ([]byte, error) {
+	if invalidQueryInputsSingle(index, c.dbInfo) {
+		return nil, errors.New("invalid query inputs")
+	}
 	i, j := utils.VectorToMatrixIndices(index, c.dbInfo.NumColumns)
 	m := c.Query(i, j)
 	return matrix.Matrix128ToBytes(m), nil
-- 
2.43.0


From d6f689ed2bb38ff273dc0fb268f2db156576e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 27/31] fix: a predicate query of another gob type does not
 crash the server

---
 lib/server/fss.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/server/fss.go b/lib/server/fss.go
index 6a14ca0..ea85c9e 100644
--- a/lib/server/fss.go
+++ b/lib/server/fss.go
@@ -30,17 +30,18 @@ func (s *serverFSS) answerBytes(q []byte, out, tmp []uint32) ([]byte, error) {
 	// decode query
 	buf := bytes.NewBuffer(q)
 	dec := gob.NewDecoder(buf)
-	var query *query.FSS
-	if err := dec.Decode(&query); err != nil {
+	// Info must exist, because gob also decodes into the promoted fields
+	fssQuery := &query.FSS{Info: new(query.Info)}
+	if err := dec.Decode(fssQuery); err != nil {
 		return nil, err
 	}
 
-	if err := s.checkQuery(query, len(out)); err != nil {
+	if err := s.checkQuery(fssQuery, len(out)); err != nil {
 		return nil, err
 	}
 
 	// get answer
-	a := s.answer(query, out, tmp)
+	a := s.answer(fssQuery, out, tmp)
 
 	return utils.Uint32SliceToByteSlice(a), nil
 }
-- 
2.43.0


From 1f627c9adabc37104b0487abaa7d8d21c8b07bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 28/31] fix: creation years do not depend on the time zone of
 the server

---
 lib/query/query.go | 1 +
 lib/server/fss.go  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/query/query.go b/lib/query/query.go
index cd0d290..5bdb1c0 100644
--- a/lib/query/query.go
+++ b/lib/query/query.go
@@ -200,6 +200,7 @@ func (i *Info) IdForCreationTime(t time.Time) ([]bool, error) {
 }
 
 func (i *Info) IdForYearCreationTime(t time.Time) ([]bool, error) {
+	t = t.UTC() // the year must not depend on the time zone
 	y := uint32(t.Year())
 	b := make([]byte, 4)
 	binary.BigEndian.PutUint32(b, y)
diff --git a/lib/server/fss.go b/lib/server/fss.go
index ea85c9e..e4c55b6 100644
--- a/lib/server/fss.go
+++ b/lib/server/fss.go
@@ -175,7 +175,7 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 			s.fss.EvaluatePF(s.serverNum, q.FssKey, in, tmp)
 
 			// compute difference in years between now and creation time
-			diffYears := time.Now().Year() - s.db.KeysInfo[i].CreationTime.Year()
+			diffYears := time.Now().UTC().Year() - s.db.KeysInfo[i].CreationTime.UTC().Year()
 			if diffYears < 0 {
 				// some keys are malformed (creation time 2040, 2106, 2031), remove them
 				continue
-- 
2.43.0


From 3942e4a1ac2d121636e7bdbf4fc6cd5d45bf678c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 29/31] fix: a year that is not a number does not end the web
 front end

---
 cmd/grpc/client/web/mod.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/grpc/client/web/mod.go b/cmd/grpc/client/web/mod.go
index 519746f..e8f5340 100644
--- a/cmd/grpc/client/web/mod.go
+++ b/cmd/grpc/client/web/mod.go
@@ -10,6 +10,7 @@ import (
 	"net"
 	"net/http"
 	"os"
+	"strconv"
 	"strings"
 	"time"
 
@@ -355,6 +356,10 @@ func getHandleCountTimestamp(actor manager.Actor) func(w http.ResponseWriter, re
 			http.Error(w, "year argument not found", http.StatusBadRequest)
 			return
 		}
+		if _, err := strconv.Atoi(year); err != nil {
+			http.Error(w, "invalid year: "+year, http.StatusBadRequest)
+			return
+		}
 
 		info := &query.Info{
 			Target: query.CreationTime,
-- 
2.43.0


From caa61658b17bdc0e2b1393bb06ebe784ee031f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 30/31] fix: the web front end sends no count after an error

---
 cmd/grpc/client/web/mod.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/grpc/client/web/mod.go b/cmd/grpc/client/web/mod.go
index e8f5340..11f61d0 100644
--- a/cmd/grpc/client/web/mod.go
+++ b/cmd/grpc/client/web/mod.go
@@ -336,6 +336,7 @@ func getHandleCountAlgo(actor manager.Actor) func(w http.ResponseWriter, req *ht
 		if err != nil {
 			http.Error(w, fmt.Sprintf("failed to execute count query: %v", err),
 				http.StatusInternalServerError)
+			return
 		}
 
 		w.Write([]byte(fmt.Sprintf("count: %d", count)))
@@ -371,6 +372,7 @@ func getHandleCountTimestamp(actor manager.Actor) func(w http.ResponseWriter, re
 		if err != nil {
 			http.Error(w, fmt.Sprintf("failed to execute count query: %v", err),
 				http.StatusInternalServerError)
+			return
 		}
 
 		w.Write([]byte(fmt.Sprintf("count: %d", count)))
-- 
2.43.0


From 0badd66ef7ec545efaf88c11d8aa13785906fd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:56 +0000
Subject: [PATCH 31/31] fix: a stopping server answers its pending queries
 instead of crashing

---
 cmd/grpc/server/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index d47e826..1066814 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -214,8 +214,9 @@ func main() {
 	case err := <-errCh:
 		log.Fatalf("failed to serve: %v", err)
 	case <-sigCh:
-		server.stopWorker()
+		// pending queries still need the worker
 		rpcServer.GracefulStop()
+		server.stopWorker()
 		lis.Close()
 		log.Println("clean shutdown of server done")
 	}
-- 
2.43.0

