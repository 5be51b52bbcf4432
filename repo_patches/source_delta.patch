From a6a2fb9e33182e57ed68a5fa65cab6b0e18c6514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:10 +0000
Subject: [PATCH 01/19] fix: ECPoint.Equal ignored the Y coordinate

It compared p2.Y with itself, so a point and its negation were 'equal':
Open, VerifyR and every proof's verification equation accepted -P for P,
and Mult(-G, s) / Mult(-H, s) took the generator fast path and returned
s*G / s*H.
---
 crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index 26e8d07..a06b3e7 100644
--- a/crypto.go
+++ b/crypto.go
@@ -76,7 +76,7 @@ var Zero ECPoint // initialized in init()
 
 // Equal returns true if points p (self) and p2 (arg) are the same.
 func (p ECPoint) Equal(p2 ECPoint) bool {
-	if p.X.Cmp(p2.X) == 0 && p2.Y.Cmp(p2.Y) == 0 {
+	if p.X.Cmp(p2.X) == 0 && p.Y.Cmp(p2.Y) == 0 {
 		return true
 	}
 	return false
-- 
2.43.0


From d88a2bd80a66263ab0880aa7f3a7f8686c7b0749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:32 +0000
Subject: [PATCH 02/19] fix: wrong results for generators other than
 TestCurve's

Mult(H, s) used the precomputed table of TestCurve.H for any zkpcp.H, and
Mult(G, s) and the range prover the curve's base point for any zkpcp.G.
With other generators commitments and proofs were computed over the wrong
points (or Mult panicked, for a curve that is not a KoblitzCurve). The
fast paths are now taken only for the points the tables belong to.
---
 crypto.go     | 12 +++++++++---
 rangeproof.go |  4 ++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/crypto.go b/crypto.go
index a06b3e7..01a7822 100644
--- a/crypto.go
+++ b/crypto.go
@@ -74,6 +74,9 @@ type ECPoint struct {
 // Zero is a cached variable containing ECPoint{big.NewInt(0), big.NewInt(0)}
 var Zero ECPoint // initialized in init()
 
+// tableH is the point that KoblitzCurve.ScalarBaseMultH multiplies
+var tableH ECPoint // initialized in init()
+
 // Equal returns true if points p (self) and p2 (arg) are the same.
 func (p ECPoint) Equal(p2 ECPoint) bool {
 	if p.X.Cmp(p2.X) == 0 && p.Y.Cmp(p2.Y) == 0 {
@@ -95,13 +98,15 @@ func (zkpcp ZKPCurveParams) Mult(p ECPoint, s *big.Int) ECPoint {
 	// 	logStuff("Mult: Trying to multiple with zero-point!\n")
 	// 	return p
 	// } else
-	if p.Equal(zkpcp.G) {
+	// ScalarBaseMult multiplies the curve's own base point and ScalarBaseMultH
+	// the point its table was made from, whatever zkpcp.G and zkpcp.H are
+	if p.Equal(ECPoint{zkpcp.C.Params().Gx, zkpcp.C.Params().Gy}) {
 		X, Y := zkpcp.C.ScalarBaseMult(modS.Bytes())
 		return ECPoint{X, Y}
 	}
 
-	if p.Equal(zkpcp.H) {
-		X, Y := zkpcp.C.(*btcec.KoblitzCurve).ScalarBaseMultH(modS.Bytes())
+	if curve, ok := zkpcp.C.(*btcec.KoblitzCurve); ok && p.Equal(tableH) {
+		X, Y := curve.ScalarBaseMultH(modS.Bytes())
 		return ECPoint{X, Y}
 	}
 
@@ -267,5 +272,6 @@ func init() {
 
 	BigZero = big.NewInt(0)
 	Zero = ECPoint{BigZero, BigZero}
+	tableH.X, tableH.Y = btcec.S256().ScalarBaseMultH([]byte{1})
 
 }
diff --git a/rangeproof.go b/rangeproof.go
index 4d7da9c..d7b6b9d 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -119,11 +119,11 @@ func proofGenB(zkpcp ZKPCurveParams,
 		em2 := new(big.Int).Mul(e0, m2)
 		em2.Mod(em2, zkpcp.C.Params().N)
 
-		rhsX, rhsY := zkpcp.C.ScalarBaseMult(em2.Bytes())
+		rhs := zkpcp.Mult(zkpcp.G, em2)
 
 		lhs := zkpcp.Mult(zkpcp.H, j)
 
-		totX, totY := zkpcp.C.Add(lhs.X, lhs.Y, rhsX, rhsY)
+		totX, totY := zkpcp.C.Add(lhs.X, lhs.Y, rhs.X, rhs.Y)
 
 		hash := sha256.Sum256(append(totX.Bytes(), totY.Bytes()...))
 		ei := new(big.Int).SetBytes(hash[:]) // get ei
-- 
2.43.0


From e57f1203b9c2580dd8524331aa0b117d808369bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:52 +0000
Subject: [PATCH 03/19] fix: disjunctive proofs leaked the secret and the
 proved side

s = u1 + deltaC*x was not reduced mod N: s/deltaC is x up to rounding,
and the 512 bit response (next to a 256 bit simulated one) showed which
side was proved.
---
 disjunctive.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/disjunctive.go b/disjunctive.go
index a9e1a87..c695f77 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -128,6 +128,7 @@ func NewDisjunctiveProof(
 	deltaC.Mod(deltaC, zkpcp.C.Params().N)
 
 	s := new(big.Int).Add(u1, new(big.Int).Mul(deltaC, modValue))
+	s.Mod(s, zkpcp.C.Params().N)
 
 	// Look at mapping given in block comment above
 	if option == Left {
-- 
2.43.0


From ff3f3ddc1ae6540327b4c99f16fb4b08b817cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:55 +0000
Subject: [PATCH 04/19] fix: ABC proofs leaked uc - v*ub

l = u3 + (uc - v*ub)*chal was not reduced mod N, so l/chal gives
uc - v*ub, and the length of l shows whether v is 0.
---
 abc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abc.go b/abc.go
index f39f5b5..c5fea04 100644
--- a/abc.go
+++ b/abc.go
@@ -157,6 +157,7 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 	// l = u3 + (uc - v * ub) * chal
 	temp1 := new(big.Int).Sub(uc, new(big.Int).Mul(value, ub))
 	l := new(big.Int).Add(u3, new(big.Int).Mul(temp1, Challenge))
+	l = new(big.Int).Mod(l, zkpcp.C.Params().N)
 
 	return &ABCProof{
 		B,
-- 
2.43.0


From 3123e1f1269ee37cba054b42762e827bf0c7233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:58 +0000
Subject: [PATCH 05/19] fix: range proofs leaked the value they hide

The responses were not reduced mod N: they had about 768 bits for a 0 bit
and 512 bits for a 1 bit of the value, so the value could be read off a
proof (and s/e0 gave the blinding factor of every 1 bit).
---
 rangeproof.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rangeproof.go b/rangeproof.go
index d7b6b9d..eec4f02 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -146,6 +146,7 @@ func proofGenB(zkpcp ZKPCurveParams,
 		data.kScalars[idx] = new(big.Int).Add(
 			data.kScalars[idx], new(big.Int).Mul(e0, data.vScalars[idx]))
 	}
+	data.kScalars[idx].Mod(data.kScalars[idx], zkpcp.C.Params().N)
 
 	return nil
 }
-- 
2.43.0


From 593cb3a5547217d6a8590534b1ed53d45ce5e777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:01 +0000
Subject: [PATCH 06/19] fix: NewRangeProof accepted 2^40, which it cannot prove

A proof has 40 bits, so the proof generated for 2^40 was one for 0 and
did not verify against a commitment to 2^40.
---
 rangeproof.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index eec4f02..e1785d3 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -159,8 +159,8 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	// If our value is in range, then sum of commitments would equal original commitment
 	// else, because of truncation, it will be deemed out of range not be equal
 
-	if value.Cmp(big.NewInt(1099511627776)) == 1 {
-		return nil, nil, fmt.Errorf("val %s too big, can only prove up to 1099511627776\n", value.String())
+	if value.Cmp(big.NewInt(1099511627775)) == 1 {
+		return nil, nil, fmt.Errorf("val %s too big, can only prove up to 1099511627775\n", value.String())
 	}
 
 	proofSize := 40
-- 
2.43.0


From a54bc6eef3a61465030bed195d1082c0efaedced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:32 +0000
Subject: [PATCH 07/19] fix: RangeProof.Verify crashed the process on long
 proofs

A proof with more entries than there are HPoints made a goroutine index
past their end, a panic that no caller can recover from. Also check the
entries before any goroutine is started: those already started were left
blocked for ever when a later entry was rejected.
---
 rangeproof.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rangeproof.go b/rangeproof.go
index e1785d3..28e68e2 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -275,6 +275,10 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 
 	resultBox := make(chan verifyTuple, 10) // doubt we'll use even 1
 
+	if proofLength > len(zkpcp.HPoints) {
+		return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("%d entries, but only %d HPoints", proofLength, len(zkpcp.HPoints))}
+	}
+
 	for i := 0; i < proofLength; i++ {
 		// check that proofs are non-nil
 		if proof.ProofTuples[i].C.X == nil {
@@ -284,7 +288,9 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d has nil scalar", i)}
 
 		}
+	}
 
+	for i := 0; i < proofLength; i++ {
 		// give proof to the verify gorouting
 		go verifyGen(zkpcp, i, proof.ProofE, proof.ProofTuples[i], resultBox)
 	}
-- 
2.43.0


From 74732d707d599e275bef29fffdc77e2cfbf0e314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:35 +0000
Subject: [PATCH 08/19] fix: NewRangeProof ignored failures of the entropy
 source

The errors of the 40 goroutines were dropped, and the missing random
values then made NewRangeProof panic (or use what was left of the first
step). It returns the error now, as every other prover does.
---
 rangeproof.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index 28e68e2..0c4d6a0 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -46,12 +46,11 @@ type proverInternalData struct {
 	vScalars []*big.Int
 }
 
-// proofGenA takes in a waitgroup, index and bit
+// proofGenA takes in an index and bit
 // returns an Rpoint and Cpoint, and the k value bigint
 func proofGenA(zkpcp ZKPCurveParams,
-	wg *sync.WaitGroup, idx int, bit bool, s *proverInternalData) error {
+	idx int, bit bool, s *proverInternalData) error {
 
-	defer wg.Done()
 	var err error
 
 	//	R := s.Rpoints[idx]
@@ -101,11 +100,9 @@ func proofGenA(zkpcp ZKPCurveParams,
 	return nil
 }
 
-// proofGenB takes waitgroup, index, bit, along with the data to operate on
+// proofGenB takes index, bit, along with the data to operate on
 func proofGenB(zkpcp ZKPCurveParams,
-	wg *sync.WaitGroup, idx int, bit bool, e0 *big.Int, data *proverInternalData) error {
-
-	defer wg.Done()
+	idx int, bit bool, e0 *big.Int, data *proverInternalData) error {
 
 	if !bit {
 		// choose a random value from the integers mod prime
@@ -182,12 +179,20 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 
 	//	 do the loop bValue times
 	var wg sync.WaitGroup
+	errs := make([]error, proofSize)
 	wg.Add(proofSize)
 	for i := 0; i < proofSize; i++ {
-		// TODO: Check errors
-		go proofGenA(zkpcp, &wg, i, value.Bit(i) == 1, stuff)
+		go func(i int) {
+			defer wg.Done()
+			errs[i] = proofGenA(zkpcp, i, value.Bit(i) == 1, stuff)
+		}(i)
 	}
 	wg.Wait()
+	for _, err := range errs {
+		if err != nil {
+			return nil, nil, err
+		}
+	}
 
 	// hash concat of all R values
 	rHash := sha256.New()
@@ -207,11 +212,18 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	// go through all 64 part B
 	wg.Add(proofSize)
 	for i := 0; i < proofSize; i++ {
-		// TODO: Check errors
-		go proofGenB(zkpcp,
-			&wg, i, value.Bit(i) == 1, e0, stuff)
+		go func(i int) {
+			defer wg.Done()
+			errs[i] = proofGenB(zkpcp,
+				i, value.Bit(i) == 1, e0, stuff)
+		}(i)
 	}
 	wg.Wait()
+	for _, err := range errs {
+		if err != nil {
+			return nil, nil, err
+		}
+	}
 
 	for i := 0; i < proofSize; i++ {
 		//		add up to get vTotal scalar
-- 
2.43.0


From c8490fa2d35d775a8880c7f2110f2d0574f1e731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:00 +0000
Subject: [PATCH 09/19] fix: malformed encodings made the decoders panic or
 exhaust memory

ReadVarBytes did not enforce maxAllowed, so a few bytes could ask for any
amount of memory (make panics on the largest lengths); ReadBigInt panicked
on an empty byte string. A scalar takes up to 33 bytes (its sign and 32
bytes), which is what ReadBigInt allows now; the randomness returned by
NewRangeProof is reduced mod N so that it fits.
---
 crypto.go      | 6 +++++-
 rangeproof.go  | 2 ++
 wire/common.go | 4 ++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index 01a7822..6856570 100644
--- a/crypto.go
+++ b/crypto.go
@@ -192,10 +192,14 @@ func WriteBigInt(w io.Writer, b *big.Int) error {
 
 // ReadBigInt reads a big.Int from io.Reader r
 func ReadBigInt(r io.Reader) (*big.Int, error) {
-	bBytes, err := wire.ReadVarBytes(r, 32, "")
+	// a sign byte and the magnitude of a scalar
+	bBytes, err := wire.ReadVarBytes(r, 33, "")
 	if err != nil {
 		return nil, err
 	}
+	if len(bBytes) == 0 {
+		return nil, fmt.Errorf("ReadBigInt: no sign byte")
+	}
 	newInt := big.NewInt(0).SetBytes(bBytes[1:])
 	if bBytes[0] == 0x01 {
 		newInt.Neg(newInt)
diff --git a/rangeproof.go b/rangeproof.go
index 0c4d6a0..0a9d628 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -237,6 +237,8 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 		proof.ProofTuples[i].S = stuff.kScalars[i]
 	}
 
+	vTotal.Mod(vTotal, zkpcp.C.Params().N)
+
 	proof.ProofE = e0
 	proof.ProofAggregate = AggregatePoint
 
diff --git a/wire/common.go b/wire/common.go
index 94db5cb..bd0c45a 100644
--- a/wire/common.go
+++ b/wire/common.go
@@ -294,6 +294,10 @@ func ReadVarBytes(r io.Reader, maxAllowed uint32,
 		return nil, err
 	}
 
+	if count > uint64(maxAllowed) {
+		return nil, fmt.Errorf("ReadVarBytes: %s is larger than the max allowed size [count %d, max %d]", fieldName, count, maxAllowed)
+	}
+
 	b := make([]byte, count)
 	_, err = io.ReadFull(r, b)
 	if err != nil {
-- 
2.43.0


From 21450ebabbbda3f61e21c594e7e537f30e5686b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:03 +0000
Subject: [PATCH 10/19] fix: decoders reported success for malformed proofs

All but NewABCProofFromBytes dropped the errors of reading the fields and
returned a proof with nil fields, on which Verify panics; the range proof
decoder also allocated as many entries as the encoding claims to have.
---
 consistency.go | 26 +++++++++++++++++++++-----
 disjunctive.go | 36 +++++++++++++++++++++++++++++-------
 equivalence.go | 21 +++++++++++++++++----
 gspfs.go       | 21 +++++++++++++++++----
 rangeproof.go  | 30 +++++++++++++++++++++++-------
 5 files changed, 107 insertions(+), 27 deletions(-)

diff --git a/consistency.go b/consistency.go
index f7a5b08..b751fac 100644
--- a/consistency.go
+++ b/consistency.go
@@ -150,10 +150,26 @@ func (proof *ConsistencyProof) Bytes() []byte {
 func NewConsistencyProofFromBytes(b []byte) (*ConsistencyProof, error) {
 	proof := new(ConsistencyProof)
 	buf := bytes.NewBuffer(b)
-	proof.T1, _ = ReadECPoint(buf)
-	proof.T2, _ = ReadECPoint(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
-	proof.S1, _ = ReadBigInt(buf)
-	proof.S2, _ = ReadBigInt(buf)
+	var err error
+	proof.T1, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.T2, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.Challenge, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.S1, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.S2, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/disjunctive.go b/disjunctive.go
index c695f77..3a889d2 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -224,12 +224,34 @@ func (djProof *DisjunctiveProof) Bytes() []byte {
 func NewDisjunctiveProofFromBytes(b []byte) (*DisjunctiveProof, error) {
 	proof := new(DisjunctiveProof)
 	buf := bytes.NewBuffer(b)
-	proof.T1, _ = ReadECPoint(buf)
-	proof.T2, _ = ReadECPoint(buf)
-	proof.C, _ = ReadBigInt(buf)
-	proof.C1, _ = ReadBigInt(buf)
-	proof.C2, _ = ReadBigInt(buf)
-	proof.S1, _ = ReadBigInt(buf)
-	proof.S2, _ = ReadBigInt(buf)
+	var err error
+	proof.T1, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.T2, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.C, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.C1, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.C2, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.S1, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.S2, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/equivalence.go b/equivalence.go
index d56fdef..a488a70 100644
--- a/equivalence.go
+++ b/equivalence.go
@@ -138,9 +138,22 @@ func (proof *EquivalenceProof) Bytes() []byte {
 func NewEquivalenceProofFromBytes(b []byte) (*EquivalenceProof, error) {
 	proof := new(EquivalenceProof)
 	buf := bytes.NewBuffer(b)
-	proof.UG, _ = ReadECPoint(buf)
-	proof.UH, _ = ReadECPoint(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
-	proof.HiddenValue, _ = ReadBigInt(buf)
+	var err error
+	proof.UG, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.UH, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.Challenge, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.HiddenValue, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/gspfs.go b/gspfs.go
index a0d27a3..d558b70 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -114,9 +114,22 @@ func (proof *GSPFSProof) Bytes() []byte {
 func NewGSPFSProofFromBytes(b []byte) (*GSPFSProof, error) {
 	proof := new(GSPFSProof)
 	buf := bytes.NewBuffer(b)
-	proof.Base, _ = ReadECPoint(buf)
-	proof.RandCommit, _ = ReadECPoint(buf)
-	proof.HiddenValue, _ = ReadBigInt(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
+	var err error
+	proof.Base, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.RandCommit, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.HiddenValue, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.Challenge, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/rangeproof.go b/rangeproof.go
index 0a9d628..0de6c26 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -363,14 +363,30 @@ func NewRangeProofFromBytes(b []byte) (*RangeProof, error) {
 	proof := new(RangeProof)
 	buf := bytes.NewBuffer(b)
 
-	proof.ProofAggregate, _ = ReadECPoint(buf)
-	proof.ProofE, _ = ReadBigInt(buf)
-	numTuples, _ := wire.ReadVarInt(buf)
-	proof.ProofTuples = make([]rangeProofTuple, numTuples)
+	var err error
+	proof.ProofAggregate, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.ProofE, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	numTuples, err := wire.ReadVarInt(buf)
+	if err != nil {
+		return nil, err
+	}
 	for i := uint64(0); i < numTuples; i++ {
-		proof.ProofTuples[i] = rangeProofTuple{}
-		proof.ProofTuples[i].C, _ = ReadECPoint(buf)
-		proof.ProofTuples[i].S, _ = ReadBigInt(buf)
+		t := rangeProofTuple{}
+		t.C, err = ReadECPoint(buf)
+		if err != nil {
+			return nil, err
+		}
+		t.S, err = ReadBigInt(buf)
+		if err != nil {
+			return nil, err
+		}
+		proof.ProofTuples = append(proof.ProofTuples, t)
 	}
 
 	return proof, nil
-- 
2.43.0


From 0b8138b06a40ea13ebf1a8b61e1c08125a44e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:25 +0000
Subject: [PATCH 11/19] fix: NewABCProof panicked on multiples of the group
 order

A value that is 0 mod N but not 0 was taken for invertible, and sk = 0
mod N as well: ModInverse returns nil for both. The former is 0 now
(so that NewInequalityProof refuses a = b mod N too), the latter an
error.
---
 abc.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/abc.go b/abc.go
index c5fea04..cfd267c 100644
--- a/abc.go
+++ b/abc.go
@@ -62,6 +62,11 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 
 	// We cannot check that CM log is actually the value, but the verification should catch that
 
+	value = new(big.Int).Mod(value, zkpcp.C.Params().N)
+	if new(big.Int).Mod(sk, zkpcp.C.Params().N).Cmp(BigZero) == 0 {
+		return &ABCProof{}, &errorProof{"ABCProof", "sk has no inverse"}
+	}
+
 	u1, err := rand.Int(rand.Reader, zkpcp.C.Params().N)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 0dda5b21762863f6737f828246e8d2d3e30d58ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:28 +0000
Subject: [PATCH 12/19] fix: ABCProof.Verify panicked on a nil proof

Every other proof's Verify returns an error for it.
---
 abc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abc.go b/abc.go
index cfd267c..0338ba3 100644
--- a/abc.go
+++ b/abc.go
@@ -178,6 +178,10 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 // Verify checks if ABCProof aProof with appropriate commits CM and CMTok is correct
 func (aProof *ABCProof) Verify(zkpcp ZKPCurveParams, CM, CMTok ECPoint) (bool, error) {
 
+	if aProof == nil {
+		return false, &errorProof{"ABCVerify", "passed proof is nil"}
+	}
+
 	// Notes in ABCProof talk about why the Disjunc takes in this specific input even though it looks non-intuitive
 	// Here it is important that you subtract exactly 1 G from the aProof.C because that only allows for you to prove c = 1!
 	_, status := aProof.disjuncAC.Verify(zkpcp, CM, CMTok, zkpcp.H, zkpcp.Sub(aProof.C, zkpcp.G))
-- 
2.43.0


From 25ec47e1b2668446c8e5c99fc72820cb942a294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:31 +0000
Subject: [PATCH 13/19] fix: GSPFS proofs could be forged without knowing x

The challenge did not cover the base point, contrary to the documented
c = HASH(G, xG, uG). The base point is part of the proof, so a forger
could choose T and s, compute c = HASH(A, T) and then solve
s*Base + c*A = T for Base.
---
 gspfs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gspfs.go b/gspfs.go
index d558b70..dd7cf94 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -59,7 +59,7 @@ func NewGSPFSProofBase(zkpcp ZKPCurveParams, base, A ECPoint, x *big.Int) (*GSPF
 	uG := zkpcp.Mult(base, u)
 
 	// generate hashed string challenge
-	c := GenerateChallenge(zkpcp, A.Bytes(), uG.Bytes())
+	c := GenerateChallenge(zkpcp, base.Bytes(), A.Bytes(), uG.Bytes())
 
 	// v = u - c * x
 	v := new(big.Int).Sub(u, new(big.Int).Mul(c, modValue))
@@ -76,7 +76,7 @@ func (proof *GSPFSProof) Verify(zkpcp ZKPCurveParams, A ECPoint) (bool, error) {
 	}
 
 	// A = xG and RandCommit = uG
-	testC := GenerateChallenge(zkpcp, A.Bytes(), proof.RandCommit.Bytes())
+	testC := GenerateChallenge(zkpcp, proof.Base.Bytes(), A.Bytes(), proof.RandCommit.Bytes())
 
 	if testC.Cmp(proof.Challenge) != 0 {
 		return false, &errorProof{"GSPFSProof.Verify", "calculated challenge and proof's challenge do not agree!"}
-- 
2.43.0


From f1fce2f15359743edb4b4697e4afb87601ecd484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:16 +0000
Subject: [PATCH 14/19] fix: signature parsers panicked on short length bytes

A length byte of 0 or 1 (or 254, 255, which overflowed) left a slice that
was shorter than the fields the parser goes on to read.
---
 btcec/signature.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/btcec/signature.go b/btcec/signature.go
index 6026c42..36b41d1 100644
--- a/btcec/signature.go
+++ b/btcec/signature.go
@@ -112,11 +112,13 @@ func parseSig(sigStr []byte, curve elliptic.Curve, der bool) (*Signature, error)
 	// length of remaining message
 	siglen := sigStr[index]
 	index++
-	if int(siglen+2) > len(sigStr) {
+	// siglen should be less than the entire message and greater than
+	// the minimal message size.
+	if int(siglen)+2 > len(sigStr) || int(siglen)+2 < 8 {
 		return nil, errors.New("malformed signature: bad length")
 	}
 	// trim the slice we're working on so we only look at what matters.
-	sigStr = sigStr[:siglen+2]
+	sigStr = sigStr[:int(siglen)+2]
 
 	// 0x02
 	if sigStr[index] != 0x02 {
-- 
2.43.0


From 7d679218e304c91ec317035475002eae00293cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:20 +0000
Subject: [PATCH 15/19] fix: Encrypt overwrote memory behind the caller's
 plaintext

Padding was appended in place when the slice had spare capacity.
---
 btcec/ciphering.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/btcec/ciphering.go b/btcec/ciphering.go
index b18c9b7..5685cb1 100644
--- a/btcec/ciphering.go
+++ b/btcec/ciphering.go
@@ -201,7 +201,8 @@ func Decrypt(priv *PrivateKey, in []byte) ([]byte, error) {
 func addPKCSPadding(src []byte) []byte {
 	padding := aes.BlockSize - len(src)%aes.BlockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(src, padtext...)
+	// src belongs to the caller, and may have room behind its end
+	return append(src[:len(src):len(src)], padtext...)
 }
 
 // removePKCSPadding removes padding from data that was added with addPKCSPadding
-- 
2.43.0


From 03a3ed2821a798c62c6a7fd28ee84990c5152bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:23 +0000
Subject: [PATCH 16/19] fix: ParsePubKey accepted 0x05 as a key format

---
 btcec/pubkey.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/btcec/pubkey.go b/btcec/pubkey.go
index b749177..5e981cf 100644
--- a/btcec/pubkey.go
+++ b/btcec/pubkey.go
@@ -84,6 +84,11 @@ func ParsePubKey(pubKeyStr []byte, curve *KoblitzCurve) (key *PublicKey, err err
 			return nil, fmt.Errorf("invalid magic in pubkey str: "+
 				"%d", pubKeyStr[0])
 		}
+		// only hybrid keys encode the oddness of Y
+		if format == pubkeyUncompressed && ybit {
+			return nil, fmt.Errorf("invalid magic in pubkey str: "+
+				"%d", pubKeyStr[0])
+		}
 
 		pubkey.X = new(big.Int).SetBytes(pubKeyStr[1:33])
 		pubkey.Y = new(big.Int).SetBytes(pubKeyStr[33:])
-- 
2.43.0


From 0f1cce11239aee48b6af833fc0601415a4df9b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:48 +0000
Subject: [PATCH 17/19] fix: RecoverCompact returned keys for invalid
 signatures

R = 0 panicked, and an R that is not the coordinate of a point gave a key
that is not on the curve.
---
 btcec/pubkey.go    |  5 +++++
 btcec/signature.go | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/btcec/pubkey.go b/btcec/pubkey.go
index 5e981cf..7ac0ff7 100644
--- a/btcec/pubkey.go
+++ b/btcec/pubkey.go
@@ -39,6 +39,11 @@ func decompressPoint(curve *KoblitzCurve, x *big.Int, ybit bool) (*big.Int, erro
 	// https://bitcointalk.org/index.php?topic=162805.msg1712294#msg1712294
 	y := new(big.Int).Exp(x3, curve.QPlus1Div4(), curve.Params().P)
 
+	// not every x is the coordinate of a point: x^3 + B may have no root
+	if !curve.IsOnCurve(new(big.Int).Mod(x, curve.Params().P), y) {
+		return nil, fmt.Errorf("no point with this x is on the curve")
+	}
+
 	if ybit != isOdd(y) {
 		y.Sub(curve.Params().P, y)
 	}
diff --git a/btcec/signature.go b/btcec/signature.go
index 36b41d1..cda7e19 100644
--- a/btcec/signature.go
+++ b/btcec/signature.go
@@ -280,6 +280,14 @@ func hashToInt(hash []byte, c elliptic.Curve) *big.Int {
 // format and thus we match bitcoind's behaviour here.
 func recoverKeyFromSignature(curve *KoblitzCurve, sig *Signature, msg []byte,
 	iter int, doChecks bool) (*PublicKey, error) {
+	// No valid signature has an R or S outside of [1, n-1]
+	if sig.R.Sign() != 1 || sig.R.Cmp(curve.Params().N) >= 0 {
+		return nil, errors.New("signature R is not in [1, N-1]")
+	}
+	if sig.S.Sign() != 1 || sig.S.Cmp(curve.Params().N) >= 0 {
+		return nil, errors.New("signature S is not in [1, N-1]")
+	}
+
 	// 1.1 x = (n * i) + r
 	Rx := new(big.Int).Mul(curve.Params().N,
 		new(big.Int).SetInt64(int64(iter/2)))
@@ -329,6 +337,9 @@ func recoverKeyFromSignature(curve *KoblitzCurve, sig *Signature, msg []byte,
 	// TODO: this would be faster if we did a mult and add in one
 	// step to prevent the jacobian conversion back and forth.
 	Qx, Qy := curve.Add(sRx, sRy, minuseGx, minuseGy)
+	if Qx.Sign() == 0 && Qy.Sign() == 0 {
+		return nil, errors.New("recovered key is the point at infinity")
+	}
 
 	return &PublicKey{
 		Curve: curve,
-- 
2.43.0


From b9e673a4f2f4088203b0df7e8af945f8a575b30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:13 +0000
Subject: [PATCH 18/19] fix: TestCurve.H had a publicly known discrete
 logarithm

H was computed as a published number times G (Sum appends to its argument
and hashes nothing), so every commitment could be opened to any value. It
also was not the point of the table behind ScalarBaseMultH, which Mult
uses for H: Mult(H, 1) was not H. TestCurve.H is now ZKLedger's H, as the
comment on TestCurve says and as the table was generated.
---
 zksigma.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/zksigma.go b/zksigma.go
index 77ec75e..d516e7a 100644
--- a/zksigma.go
+++ b/zksigma.go
@@ -16,7 +16,6 @@ More info on Github
 package zksigma
 
 import (
-	"crypto/sha256"
 	"math/big"
 
 	"github.com/mit-dci/zksigma/btcec"
@@ -47,9 +46,9 @@ func generateH2tothe() []ECPoint {
 }
 
 func init() {
-	s256 := sha256.New()
-	hashedString := s256.Sum([]byte("This is the new random point in zksigma"))
-	HX, HY := btcec.S256().ScalarMult(btcec.S256().Gx, btcec.S256().Gy, hashedString)
+	// ZKLedger's H, the point whose X is SHA-256 of Gx+2: nobody knows its
+	// discrete logarithm, which a multiple of G would not ensure
+	HX, HY := btcec.S256().ScalarBaseMultH([]byte{1})
 	TestCurve = ZKPCurveParams{
 		C: btcec.S256(),
 		G: ECPoint{btcec.S256().Gx, btcec.S256().Gy},
-- 
2.43.0


From 3585a4458d0c2fafce726b42fe0201beee078b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:21 +0000
Subject: [PATCH 19/19] fix: range proofs never verified on curves with a
 shorter order

The prover reduces the ring hash modulo the group order, the verifier
compared it unreduced: on P-224 no honest range proof was accepted.
---
 rangeproof.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index 0de6c26..c39f18f 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -325,9 +325,11 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 		rHash.Write(rpoint.X.Bytes())
 		rHash.Write(rpoint.Y.Bytes())
 	}
-	calculatedE0 := rHash.Sum(nil)
+	// the prover reduces the hash, which matters if the order is shorter
+	calculatedE0 := new(big.Int).SetBytes(rHash.Sum(nil))
+	calculatedE0.Mod(calculatedE0, zkpcp.C.Params().N)
 
-	if proof.ProofE.Cmp(new(big.Int).SetBytes(calculatedE0[:])) != 0 {
+	if proof.ProofE.Cmp(calculatedE0) != 0 {
 		return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("calculatedE0 does not match")}
 	}
 
-- 
2.43.0

