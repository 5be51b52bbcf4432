#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One call of P() per property."""
import json, os
out = []
def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    out.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [],
            "mechanism": [{"name": m, "where": w} for m, w in mech],
            "observe_at": observe, "hook_needed": None}})

P("C01", "Point addition, subtraction, negation and doubling obey the group law",
  "For all points of secp256k1, the point at infinity (written as coordinates 0,0) included, the library's addition, subtraction, negation and doubling return exactly the affine point the elliptic-curve group law prescribes. This includes equal points, opposite points, points that share only one coordinate and infinity on either side. It holds for every choice of projective coordinates the inner routines may be handed. The on-curve predicate is true exactly for the coordinate pairs that satisfy the curve equation, and the published curve parameters are those of secp256k1.",
  ["inputs"], "all pairs of canonical points of the curve incl. infinity, and all canonical coordinate pairs for the on-curve predicate",
  "A handful of fixed or random points; special cases (P+P, P-P, shared y, infinity) are a negligible part of the space and mostly never sampled.",
  ["crypto.go", "btcec/btcec.go"], [("ZKPCurveParams.Add/Sub/Neg", "crypto.go"), ("KoblitzCurve.Add/Double/IsOnCurve and the addJacobian family", "btcec/btcec.go")],
  ["returned coordinates"])
P("C02", "Scalar multiplication is correct for every point, scalar and code path",
  "Multiplying any point by any integer (negative, zero, larger than the group order, or a byte string of any length with leading zeros) yields the group-theoretic multiple, whichever of the generic, base-point-table, second-generator-table or commitment-token entry points is used. All entry points agree with each other on the inputs they share. The signed-digit recoding helper returns the non-adjacent form: two digit strings, no two digits next to each other, whose difference is the input.",
  ["inputs"], "all canonical points incl. infinity and both generators, all integers / big-endian byte strings; every entry of both 32x256 precomputed tables",
  "Existing tests multiply a few random scalars; a wrong table entry, a sign error in one endomorphism quadrant or a reduction error for long scalars is hit with probability near 0.",
  ["crypto.go", "btcec/btcec.go", "btcec/precompute.go", "btcec/secp256k1.go", "btcec/secp256k1H.go"],
  [("ZKPCurveParams.Mult, CommitR", "crypto.go"), ("ScalarMult, ScalarBaseMult, ScalarBaseMultH, splitK, NAF, moduloReduce", "btcec/btcec.go"), ("precomputed tables", "btcec/precompute.go")],
  ["returned coordinates"])
P("C03", "Field arithmetic is exact modulo the field prime",
  "Within the documented magnitude limits, every operation of the field element type (setting, addition, integer multiplication, negation, multiplication, squaring, inversion, normalisation, comparison, parity, byte and text conversion) computes the exact integer result modulo the secp256k1 prime. Normalisation always yields the unique canonical representative. An operation changes only the element it is called on.",
  ["inputs", "programs"], "all straight-line programs of field operations that respect the documented magnitude bounds, on all field values including non-normalised ones",
  "The repo's field tests are tables of a few constants; carry and borrow corner cases occur for a 2^-26 or smaller fraction of values.",
  ["btcec/field.go"], [("fieldVal methods", "btcec/field.go")], ["field value read back as an integer"])
P("C04", "Equality tests hold exactly when all components are equal",
  "Two points, public keys or signatures compare equal exactly when both of their components are the same integers. In particular a point never equals its negation, its image under the curve endomorphism or a point that differs in one bit of one coordinate. Equality depends on values, not on object identity.",
  ["inputs"], "all pairs of points / keys / signatures, in particular near-equal pairs",
  "Tests compare points that are equal, or random ones that differ in both coordinates.",
  ["crypto.go", "btcec/pubkey.go", "btcec/signature.go"], [("ECPoint.Equal", "crypto.go"), ("PublicKey.IsEqual", "btcec/pubkey.go"), ("Signature.IsEqual", "btcec/signature.go")], ["boolean results"])
P("C05", "Pedersen commitments are vG+rH and open only to matching pairs",
  "A commitment to any integer value v with any integer blinding r is the point vG+rH, so it is homomorphic under point addition, subtraction and scaling, and opening it succeeds exactly for pairs (v', r') with v'G+r'H equal to the given point. A commitment made with generated blinding returns a blinding below the group order that opens it. Nobody can compute a second opening with a different value modulo the group order. The shared bit generators are the first generator times the powers of two below 2^64.",
  ["inputs"], "all integer values and blindings (negative, zero, above the group order), all candidate openings",
  "Tests open a few random commitments; they cannot cover boundary values nor candidate openings that differ by structured amounts.",
  ["crypto.go", "zksigma.go"], [("PedCommit, PedCommitR, Open", "crypto.go"), ("generator setup", "zksigma.go")], ["commitment point, Open result"])
P("C06", "Key pairs and commitment tokens satisfy pk=sk*base and token=r*pk",
  "Key generation on any base returns a secret scalar below the group order and its exact multiple of the base, and different calls return different keys. The token of any integer r under any public key is r*pk, and token verification accepts exactly the token of that r (modulo the group order) and that key.",
  ["inputs", "histories"], "all bases, keys and integers r, all candidate tokens; sequences of key generations",
  "Tests use a few random keys and check one matching and at most one mismatching token.",
  ["crypto.go"], [("KeyGen, CommitR, VerifyR", "crypto.go")], ["returned points, VerifyR result"])
P("C07", "Fiat-Shamir challenges are SHA-256 of the concatenated transcript mod N",
  "The challenge for a list of byte strings is the SHA-256 digest of their concatenation, read big-endian and reduced modulo the group order, for every number and length of strings. The bytes of a point are the minimal big-endian bytes of X followed by those of Y. Computing them changes none of the inputs.",
  ["inputs"], "all lists of byte strings (empty, nil, long), all points incl. those with leading zero bytes and infinity",
  "Challenges are only compared between prover and verifier, which share the code; a change on both sides goes unnoticed.",
  ["crypto.go"], [("GenerateChallenge, ECPoint.Bytes", "crypto.go")], ["challenge integer, point bytes"])

def complete(id, name, title, stmt, text, file, mech):
    P(id, title, stmt, ["inputs"], text,
      "Tests prove a few random statements with random nonces; boundary witnesses (0, 1, N-1, above N, negative), degenerate bases and edge nonces, and all the ways a witness can be wrong, are not sampled.",
      [file], mech, ["prover result and error", "verdict of the library's verifier and of an independent verifier"])
complete("C08", "GSPFS", "Schnorr (GSPFS) proofs: true statements verify, false ones are refused",
  "For every base, every integer x and A = x*base, the prover succeeds and its proof is accepted by the verifier and by an independent implementation of the documented equations. If A is not x*base the prover returns an error and no usable proof.",
  "all bases, all integers x, all nonces; all points A that are not x*base", "gspfs.go", [("NewGSPFSProof, NewGSPFSProofBase, Verify", "gspfs.go")])
complete("C09", "Equivalence", "Equivalence proofs: true statements verify, false ones are refused",
  "For every two bases, every integer x, and results that are both x times their base, the prover succeeds and its proof is accepted by the verifier and by an independent implementation of the documented equations. If either result is not x times its base the prover returns an error.",
  "all pairs of bases, all integers x, all nonces; every way either result can fail to match", "equivalence.go", [("NewEquivalenceProof, Verify", "equivalence.go")])
complete("C10", "Consistency", "Consistency proofs: true statements verify, false ones are refused",
  "For every value, blinding and public key, with the matching commitment and token, the prover succeeds and its proof is accepted by the verifier and by an independent implementation of the documented equations. If the commitment does not open to the value and blinding, or the token is not the blinding times the key, the prover returns an error.",
  "all integer values and blindings, all keys, all nonces; every mismatching commitment or token", "consistency.go", [("NewConsistencyProof, Verify", "consistency.go")])
complete("C11", "Disjunctive", "Disjunctive proofs: either true side verifies, false sides are refused",
  "For every pair of (base, result) and either side whose result is x times its base, whatever the other side is, the prover succeeds and its proof is accepted by the verifier and by an independent implementation of the documented equations. If the chosen side's result is not x times its base, or the side is not one of the two, the prover returns an error.",
  "all base/result pairs, all integers x, both sides, both sides possibly true, all nonces", "disjunctive.go", [("NewDisjunctiveProof, Verify", "disjunctive.go")])
complete("C12", "ABC", "ABC proofs: true statements verify, wrong sides and keys are refused",
  "For every commitment to v with its token under secret key sk, the proof for the side that matches v (zero or non-zero modulo the group order) is accepted by the verifier and by an independent implementation of the documented equations, and its published commitments B, C and token of C commit to inv(v), v*inv(v) and C's blinding under sk. Asking for the side that does not match v, or with a secret key that has no inverse, returns an error. A proof made with a value, key, commitment or token that do not belong together is never accepted.",
  "all integer values, blindings and non-zero keys, both sides, all nonces; all mismatches", "abc.go", [("NewABCProof, Verify", "abc.go")])
complete("C13", "Inequality", "Inequality proofs: different values verify, equal ones are refused",
  "For every two commitments under one key whose values differ modulo the group order, the prover succeeds and its proof is accepted against the difference of the commitments and tokens. If the values are equal modulo the group order, the prover returns an error. A proof made with values, key, commitments or tokens that do not belong together is never accepted.",
  "all integer pairs a, b (differing by 1, by multiples of N, with either sign), all blindings and keys", "inequality.go", [("NewInequalityProof, Verify", "inequality.go"), ("NewABCProof", "abc.go")])
complete("C14", "Range", "Range proofs: exactly 0..2^40-1 can be proved, with an opening blinding",
  "For every value from 0 to 2^40-1 the prover succeeds, the returned blinding is below the group order, and the proof is accepted by the verifier and by an independent implementation against the commitment to the value with that blinding, and against no other commitment. For every other integer the prover returns an error and no proof.",
  "all integers: every value in range (each bit pattern), both boundaries, negatives, and values beyond 2^40 incl. those congruent to in-range values", "rangeproof.go", [("NewRangeProof, RangeProof.Verify", "rangeproof.go")])

def sound(id, title, stmt, text, file, mech):
    P(id, title, stmt, ["inputs", "histories"], text,
      "Tests reject one or two hand-made bad proofs; a verifier that skips one equation, leaves one public value out of the challenge or accepts a special case still passes them.",
      [file, "crypto.go"], mech, ["Verify result and error, for each proof in a sequence of calls"])
S = " The verdict is the same however often and in whatever order proofs are verified, and is (true, no error) or (false, error)."
sound("C15", "GSPFS verification accepts exactly proofs satisfying its documented checks",
  "For every proof and point A, verification accepts exactly if the challenge is the hash of the proof's base, A and the random commitment, and response*base + challenge*A equals the random commitment. So a proof is not accepted for another A, another base, or after any of its fields is changed." + S,
  "all proofs (honest, mutated, replayed against other statements, built to satisfy all checks but one, built for a challenge that omits one public value) and statements; sequences of verifications", "gspfs.go", [("GSPFSProof.Verify", "gspfs.go")])
sound("C16", "Equivalence verification accepts exactly proofs satisfying its checks",
  "For every proof and four points, verification accepts exactly if the challenge is the hash of both bases, both results and both commitments, and the response equation holds for both bases. So it accepts no proof for results with different discrete logarithms, no replay against another statement, and no proof with a changed field." + S,
  "all proofs (honest, mutated, replayed, single-equation and weak-challenge forgeries) and statements", "equivalence.go", [("EquivalenceProof.Verify", "equivalence.go")])
sound("C17", "Consistency verification accepts exactly proofs satisfying its checks",
  "For every proof, commitment, token and key, verification accepts exactly if the challenge is the hash of G, H, commitment, token, key and both random commitments, and both the commitment equation and the token equation hold. So it accepts no proof for a token made with another blinding, no replay, and no proof with a changed field." + S,
  "all proofs (honest, mutated, replayed, single-equation and weak-challenge forgeries) and statements", "consistency.go", [("ConsistencyProof.Verify", "consistency.go")])
sound("C18", "Disjunctive verification accepts exactly proofs satisfying its checks",
  "For every proof and two (base, result) pairs, verification accepts exactly if the challenge is the hash of all four points and both commitments, the two partial challenges sum to it modulo the group order, and both response equations hold. So nobody can prove a disjunction by simulating both sides, replay a proof against another statement, or change a field." + S,
  "all proofs (honest, mutated, replayed, both-sides-simulated, single-equation and weak-challenge forgeries) and statements", "disjunctive.go", [("DisjunctiveProof.Verify", "disjunctive.go")])
sound("C19", "ABC verification accepts exactly proofs satisfying its documented checks",
  "For every proof, commitment and token, verification accepts exactly if the embedded disjunctive proof is valid for (commitment, token, H, C-G), the challenge is the hash of G, H, commitment, token, B, C and both random commitments, and both response equations hold. So it accepts no proof for another commitment or token, and no proof in which B, C, a commitment, a response or a part of the disjunctive proof was changed." + S,
  "all proofs (honest of either side, mutated in every field, with spliced parts, replayed, single-equation and weak-challenge forgeries) and statements", "abc.go", [("ABCProof.Verify", "abc.go")])
sound("C20", "Inequality verification rejects proofs for equal values and changed proofs",
  "Verification of an inequality proof accepts only if the proof satisfies every check of the underlying ABC proof against the given difference of commitments and tokens, and never when the two committed values are equal. So changed, spliced or replayed proofs are rejected." + S,
  "all proofs (honest, mutated, replayed, converted from other proofs) and statements, equal-value statements included", "inequality.go", [("InequalityProof.Verify", "inequality.go"), ("ABCProof.Verify", "abc.go")])
sound("C21", "Range verification accepts exactly proofs satisfying its documented checks",
  "For every proof with at most as many bit entries as there are bit generators, verification accepts exactly if the ring hash over all entries closes, the entries' points sum to the stated aggregate, and that aggregate is the given commitment; a proof with more entries is rejected. So no proof is accepted for another commitment, with an entry changed, dropped, duplicated or reordered, or with a bit commitment that is neither 0 nor its power of two." + S,
  "all proofs (honest, mutated in any entry, shortened, extended, reordered, with per-bit forgeries, for out-of-range values) and commitments", "rangeproof.go", [("RangeProof.Verify, verifyGen", "rangeproof.go")])
P("C22", "Provers use fresh, independent, full-size randomness for every secret nonce",
  "In every proof, commitment and key made by the library, each secret nonce or blinding factor is drawn afresh from the system random source over the whole range of the group order. No two of them are equal or related by a fixed offset or factor, neither inside one proof nor between proofs of the same or different statements. So no witness can be computed from any set of published proofs by comparing them. The same holds for private keys, and for the one-time key and initialisation vector of an encryption.",
  ["inputs", "histories"], "all histories of prover calls in one process, on equal and different statements; every nonce of every proof type, private keys, encryptions",
  "Tests only check that a proof verifies, which a proof with a repeated, truncated or constant nonce does.",
  ["gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "rangeproof.go", "crypto.go"], [("rand.Int draws in the provers, PedCommit and KeyGen", "all provers")], ["published proof fields, with the known witness used to solve for the nonces"])
P("C23", "Published proofs do not reveal the proved side, the bits or the witness",
  "Every response and challenge a prover publishes is a reduced, uniformly distributed scalar, whatever the witness is. The fields of a disjunctive or ABC proof have the same distribution whether the left or the right side is proved, and those of a range-proof entry are the same for a zero and a one bit. In particular no size, sign, order, parity or single-bit statistic of the published fields depends on the secret.",
  ["inputs", "histories"], "all witnesses (tiny and huge), both sides, both bit values; statistics over many proofs",
  "Tests never look at the distribution of proof fields; the original code published unreduced responses and passed them all.",
  ["disjunctive.go", "abc.go", "rangeproof.go", "gspfs.go", "equivalence.go", "consistency.go"], [("reduction of responses modulo the order; left/right mapping of fields", "provers")], ["distribution of published proof fields"])
P("C24", "Proof encoding is the documented format and decoding inverts it",
  "For every proof of every type, with any scalars of up to 256 bits in magnitude and either sign and any points, the encoding is the fixed field sequence of length-prefixed minimal big-endian numbers, and decoding it gives back a proof with identical fields. Two proofs with different fields have different encodings. A decoded proof gets the same verdict as the original.",
  ["inputs"], "all proofs of all six encodable types: honest ones and arbitrary field values (zero, negative, leading zero bytes, infinity, any tuple count)",
  "Tests round-trip one honest proof per type, in which no field is zero, negative, short or extreme.",
  ["crypto.go", "wire/common.go", "gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "rangeproof.go"], [("Bytes and New*FromBytes", "proof files"), ("WriteECPoint, ReadECPoint, WriteBigInt, ReadBigInt", "crypto.go")], ["encoded bytes, decoded fields"])
P("C25", "Decoding and verifying untrusted proofs never crashes or over-allocates",
  "For every byte string, each proof decoder returns a proof or an error, in time and memory proportional to the input, and never panics; strings that are truncated, over-long in a field or not canonical in a length are errors. Verifying whatever was decoded, a missing proof, or a range proof with missing entries returns a verdict or an error, never crashes the process and leaves no goroutine behind. A decoder accepts nothing that does not spell out all fields of the proof.",
  ["inputs"], "all byte strings, in particular mutations and truncations of valid encodings; nil proofs and nil entries",
  "Tests decode only valid encodings.",
  ["crypto.go", "wire/common.go", "gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "rangeproof.go"], [("New*FromBytes, ReadVarBytes limits, nil checks in Verify", "proof files, wire/common.go")], ["returned error, process survival, bytes allocated, goroutine count"])
P("C26", "Wire primitives are canonical, bounded, and report every I/O error",
  "Variable-length integers, byte strings, points and signed integers are written in their documented format, read back to the same value, and consume exactly their own bytes from any reader, however it splits the data. Non-canonical length prefixes, byte strings longer than the caller's limit and input that ends early are errors, and every error of the underlying reader or writer is reported. The size function equals the number of bytes written. Random 64-bit numbers come from the random source and use the whole range.",
  ["inputs", "fault_sequences"], "all values (every size boundary), all reader chunkings, all limits, an I/O failure at every byte position",
  "The wire package has no tests.",
  ["wire/common.go", "crypto.go"], [("ReadVarInt, WriteVarInt, VarIntSerializeSize, ReadVarBytes, WriteVarBytes", "wire/common.go"), ("point and integer codecs", "crypto.go")], ["bytes written, values read, errors, bytes left in the reader"])
P("C27", "A failing random source makes provers fail, never emit weak proofs",
  "If the system random source returns an error at any point during a proof or commitment, the call returns an error and no proof. A source that delivers its bytes in arbitrarily small pieces yields valid proofs.",
  ["fault_sequences", "inputs"], "a failure after every possible number of random bytes, and all chunkings, for every prover and statement",
  "Tests never make the random source fail.",
  ["gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "rangeproof.go", "crypto.go", "btcec/ciphering.go"], [("error checks after each rand.Int", "provers")], ["returned proof and error"])
P("C28", "Operations leave their inputs and the shared parameters unchanged",
  "No proving, verifying, committing, encoding, point or signing operation changes any value it was given, the shared curve parameters or the package's constants. Repeating a verification, an encoding or a deterministic computation later in the process gives the same result. A result does not change when later operations run, when the caller reuses the buffer it was decoded from, or when the caller changes another call's result.",
  ["inputs", "histories"], "all operation sequences over shared inputs, parameters and earlier results",
  "Tests use fresh inputs for each call and never look at them again.",
  ["crypto.go", "zksigma.go", "gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "inequality.go", "rangeproof.go", "btcec/btcec.go", "wire/common.go"], [("fresh big.Int results, local copies of table entries", "throughout")], ["deep snapshots of inputs, globals and earlier results"])
P("C29", "Concurrent use gives the sequential results without data races",
  "Any number of goroutines may at the same time prove, verify, commit, encode, decode and use curve operations, sharing curve parameters, statements and proofs. Every call gives the result it would give alone, and there is no data race.",
  ["schedules", "inputs"], "interleavings of concurrent calls over shared objects, with and without the race detector",
  "Tests are sequential and run without the race detector.",
  ["rangeproof.go", "wire/common.go", "btcec/btcec.go", "crypto.go"], [("per-index goroutine results, buffer free list, read-only tables", "rangeproof.go, wire/common.go, btcec/btcec.go")], ["results of concurrent calls, race detector reports"])
P("C30", "Proofs, commitments and arithmetic respect the curve parameters passed in",
  "With any two generators of secp256k1 and the matching bit generators, and with another curve, every commitment, token and proof is computed with the passed generators and not with built-in ones: commitments equal vG+rH, honest proofs of all types verify, and they fail to verify under different parameters. Using one set of parameters does not affect another.",
  ["configurations", "inputs"], "all choices of generator points (swapped, equal to table points, random, negated) on secp256k1, and the P-256 curve",
  "Tests use a single global parameter set.",
  ["crypto.go", "rangeproof.go", "abc.go", "consistency.go"], [("Mult's table shortcuts, use of G, H and HPoints", "crypto.go, rangeproof.go")], ["commitments, proofs and verdicts under each parameter set"])
P("C31", "Public and private key encodings are exact and strictly parsed",
  "Every public key serialises to the standard 33-byte compressed, 65-byte uncompressed and 65-byte hybrid forms and parses back to itself; a byte string parses exactly if it is one of these forms of a point on the curve with coordinates below the field prime and consistent parity, and otherwise gives an error. Private keys serialise to 32 padded bytes and are rebuilt from them with the matching public key. A parsed key keeps its value whatever is parsed or computed later.",
  ["inputs"], "all keys (coordinates and scalars with leading zeros), all byte strings, in particular mutations of valid encodings",
  "btcec's key tests were not imported; nothing tests encodings.",
  ["btcec/pubkey.go", "btcec/privkey.go"], [("ParsePubKey, decompressPoint, Serialize*", "btcec/pubkey.go"), ("PrivKeyFromBytes, Serialize", "btcec/privkey.go")], ["bytes, parsed coordinates, errors"])
P("C32", "ECDSA signing is RFC 6979 low-S and verification accepts only valid signatures",
  "Signing any hash with any private key returns the RFC 6979 deterministic signature with S at most half the group order, and it verifies under the matching public key. Verification accepts exactly the (r, s) pairs in range that satisfy the ECDSA equation for that hash and key.",
  ["inputs"], "all keys, all hashes of any non-zero length (values above the group order included), all signatures, honest and mutated",
  "Nothing tests signatures in this repository.",
  ["btcec/signature.go", "btcec/privkey.go"], [("signRFC6979, nonceRFC6979, Signature.Verify", "btcec/signature.go")], ["r, s, verdicts"])
P("C33", "Signature DER/BER encoding is canonical and parsing is strict and total",
  "Every signature serialises to minimal DER with S replaced by its low form, and parses back to that signature. For every byte string the parsers return a signature or an error without panicking: they accept exactly the two-integer sequence whose lengths match and whose integers lie between 1 and the group order, the strict parser additionally only non-negative, minimally padded integers.",
  ["inputs"], "all signatures, all byte strings, in particular mutations of length and padding bytes",
  "Nothing tests signature parsing in this repository.",
  ["btcec/signature.go"], [("Serialize, ParseSignature, ParseDERSignature", "btcec/signature.go")], ["bytes, parsed integers, errors"])
P("C34", "Compact signatures recover the signing key, and only keys that verify",
  "For every key and hash, the compact signature is 65 bytes and recovery returns exactly the signing key and the compression flag. For every other byte string recovery returns an error or a key on the curve under which the contained signature verifies for that hash; a header byte outside 27 to 34 is always an error; and it never panics.",
  ["inputs"], "all keys, hashes and flags; all 65-byte strings, R and S boundary values included, and other lengths",
  "Nothing tests recovery in this repository.",
  ["btcec/signature.go", "btcec/pubkey.go"], [("SignCompact, RecoverCompact, recoverKeyFromSignature", "btcec/signature.go")], ["recovered key, flag, error"])
P("C35", "Encryption round-trips, shared secrets agree and tampering is detected",
  "Both parties of a key exchange compute the same secret, the x coordinate of the shared point. Decrypting what was encrypted to a key returns the plaintext, of any length, and decrypting with a key that is neither that key nor its negation, or after any byte was changed, added or removed, gives an error and never panics. Encryption does not modify the plaintext or memory next to it, and encrypting twice gives different ciphertexts.",
  ["inputs"], "all keys, plaintexts of all lengths, all modifications of a ciphertext and arbitrary byte strings",
  "Nothing tests encryption in this repository.",
  ["btcec/ciphering.go"], [("Encrypt, Decrypt, GenerateSharedSecret, padding", "btcec/ciphering.go")], ["plaintexts, errors, caller's buffers"])
P("C36", "Ledger audits verify exactly the true totals of any transaction history",
  "For any history of ledger entries (commitments with tokens and proofs under several participants' keys), each entry's published proofs verify for that entry and no other, the sums of commitments and tokens stay consistent, and an audit answer for a participant's total, or for the number of its non-zero entries, verifies exactly if it is the true one. This holds after encoding and decoding every published object.",
  ["histories", "inputs"], "all sequences of transfers of any size and sign between several participants, audits at any point, true and false claims",
  "Tests exercise proofs one at a time; no test composes commitments, tokens and proofs over a history.",
  ["crypto.go", "equivalence.go", "consistency.go", "abc.go", "rangeproof.go", "examples"], [("homomorphic sums and equivalence proofs over them, CToken", "crypto.go, abc.go")], ["verdicts of entry proofs and audit proofs"])
P("C37", "Every call's result depends only on its arguments, not on earlier calls",
  "In every history of calls to this library, of any operations, on one or several sets of curve parameters, with valid, false or malformed arguments, each call returns what its arguments alone determine: the same as if it were the only call. Calls that failed before, results computed before for similar arguments or for the same objects when they held other values, other curves in use and the debug switch make no difference.",
  ["histories", "inputs"], "all interleavings of all operations with arguments that are equal or related across calls, on several parameter sets, with debug output on or off",
  "Tests run each operation on its own, mostly on fresh random arguments; state kept between calls (caches, pooled buffers, shared tables) shows only when a later call has similar arguments.",
  ["crypto.go", "zksigma.go", "btcec/btcec.go", "btcec/precompute.go", "wire/common.go"], [("package-level tables, constants and buffer pools", "zksigma.go, crypto.go, btcec/precompute.go, wire/common.go"), ("all operations", "*.go")], ["results of every call, compared with an independent implementation"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in out:
        f.write(json.dumps(p) + "\n")
print(len(out), "properties")
