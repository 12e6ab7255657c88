From af9fed76b8d753a9c365eb89c88b1a4b15ab9451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:24 +0000
Subject: [PATCH 1/9] fix: BatchXNOR computed XOR instead of XNOR

---
 gates/gates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gates/gates.go b/gates/gates.go
index 0ebd29f..5a34629 100644
--- a/gates/gates.go
+++ b/gates/gates.go
@@ -290,7 +290,7 @@ func BatchXNOR(inputs [][2]*Ciphertext, ck *cloudkey.CloudKey) []*Ciphertext {
 	prepared := make([]*Ciphertext, len(inputs))
 	for i, pair := range inputs {
 		tlweXNOR := pair[0].SubMul(pair[1], 2)
-		tlweXNOR.SetB(tlweXNOR.B() + utils.F64ToTorus(-0.25))
+		tlweXNOR.SetB(tlweXNOR.B() + utils.F64ToTorus(0.25))
 		prepared[i] = tlweXNOR
 	}
 
-- 
2.43.0


From 54fd2b66202d70bad48bba1f7dedb03e1873d04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:24 +0000
Subject: [PATCH 2/9] fix: BatchBlindRotate returned buffers of pooled
 evaluators that other items overwrite

---
 trgsw/trgsw.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trgsw/trgsw.go b/trgsw/trgsw.go
index 5f5a2a9..0e22cca 100644
--- a/trgsw/trgsw.go
+++ b/trgsw/trgsw.go
@@ -230,7 +230,7 @@ var evaluatorPool = sync.Pool{
 	},
 }
 
-// BatchBlindRotate performs multiple blind rotations in parallel (zero-allocation)
+// BatchBlindRotate performs multiple blind rotations in parallel
 func BatchBlindRotate(srcs []*tlwe.TLWELv0, blindRotateTestvec *trlwe.TRLWELv1, bootstrappingKey []*TRGSWLv1FFT, decompositionOffset params.Torus) []*trlwe.TRLWELv1 {
 	results := make([]*trlwe.TRLWELv1, len(srcs))
 	var wg sync.WaitGroup
@@ -243,7 +243,13 @@ func BatchBlindRotate(srcs []*tlwe.TLWELv0, blindRotateTestvec *trlwe.TRLWELv1,
 			polyEval := evaluatorPool.Get().(*poly.Evaluator)
 			defer evaluatorPool.Put(polyEval)
 
-			results[idx] = BlindRotate(s, blindRotateTestvec, bootstrappingKey, decompositionOffset, polyEval)
+			// BlindRotate returns buffers owned by polyEval: copy them before it
+			// goes back to the pool and is reused by another goroutine
+			rotated := BlindRotate(s, blindRotateTestvec, bootstrappingKey, decompositionOffset, polyEval)
+			result := trlwe.NewTRLWELv1()
+			copy(result.A, rotated.A)
+			copy(result.B, rotated.B)
+			results[idx] = result
 		}(i, src)
 	}
 
-- 
2.43.0


From 885621dcb57ab0ff2234785570a8730879e134a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:37 +0000
Subject: [PATCH 3/9] fix: batch blind rotation reused pooled evaluators of
 another polynomial degree after a profile switch

---
 trgsw/trgsw.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trgsw/trgsw.go b/trgsw/trgsw.go
index 0e22cca..6124289 100644
--- a/trgsw/trgsw.go
+++ b/trgsw/trgsw.go
@@ -241,6 +241,10 @@ func BatchBlindRotate(srcs []*tlwe.TLWELv0, blindRotateTestvec *trlwe.TRLWELv1,
 			defer wg.Done()
 			// Get evaluator from pool (reuse instead of allocate)
 			polyEval := evaluatorPool.Get().(*poly.Evaluator)
+			if n := params.GetTRGSWLv1().N; polyEval.Degree() != n {
+				// Left over from another parameter profile
+				polyEval = poly.NewEvaluator(n)
+			}
 			defer evaluatorPool.Put(polyEval)
 
 			// BlindRotate returns buffers owned by polyEval: copy them before it
-- 
2.43.0


From 62bf120b175fdc0b1d895f8d1e1b0e02df1fec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:38 +0000
Subject: [PATCH 4/9] fix: gates panicked at every parameter profile but the
 one selected at start-up

---
 gates/gates.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/gates/gates.go b/gates/gates.go
index 5a34629..a5f1325 100644
--- a/gates/gates.go
+++ b/gates/gates.go
@@ -16,10 +16,23 @@ import (
 type Ciphertext = tlwe.TLWELv0
 
 // Global evaluator for single-threaded operations (zero-allocation)
-var globalEval *evaluator.Evaluator
+var (
+	globalEval      *evaluator.Evaluator
+	globalEvalLevel params.SecurityLevel
+)
 
 func init() {
-	globalEval = evaluator.NewEvaluator(params.GetTRGSWLv1().N)
+	currentEval()
+}
+
+// currentEval returns the global evaluator, rebuilt when the parameter profile
+// has changed since it was sized
+func currentEval() *evaluator.Evaluator {
+	if globalEval == nil || globalEvalLevel != params.CurrentSecurityLevel {
+		globalEval = evaluator.NewEvaluator(params.GetTRGSWLv1().N)
+		globalEvalLevel = params.CurrentSecurityLevel
+	}
+	return globalEval
 }
 
 // NAND performs homomorphic NAND operation (zero-allocation)
@@ -128,14 +141,14 @@ func Copy(tlweA *Ciphertext) *Ciphertext {
 // bootstrap performs full bootstrapping with key switching (TRUE zero-allocation)
 // Returns pointer to internal buffer - result is only valid until next bootstrap call
 func bootstrapTemp(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	return globalEval.Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
+	return currentEval().Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
 }
 
 // bootstrap2 performs full bootstrapping with key switching (zero-allocation)
 // copies the prepared buffer to the result
 func bootstrap(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 	result := tlwe.NewTLWELv0()
-	bootstrapped := globalEval.Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
+	bootstrapped := currentEval().Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
 	copy(result.P, bootstrapped.P)
 	result.SetB(bootstrapped.B())
 	return result
@@ -144,7 +157,7 @@ func bootstrap(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 // bootstrapWithoutKeySwitch performs bootstrapping without key switching (uses global eval)
 func bootstrapWithoutKeySwitch(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 	trlweResult := trlwe.NewTRLWELv1()
-	globalEval.BlindRotateAssign(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset, trlweResult)
+	currentEval().BlindRotateAssign(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset, trlweResult)
 	return trlwe.SampleExtractIndex2(trlweResult, 0)
 }
 
-- 
2.43.0


From 300ffc8e17bce6a4850f64e3de5e90463af8876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:39 +0000
Subject: [PATCH 5/9] fix: ShallowCopy of an evaluator had one decomposition
 level and panicked on use

---
 evaluator/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index bce7796..e6f7fb4 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -40,7 +40,7 @@ func NewEvaluator(n int) *Evaluator {
 func (e *Evaluator) ShallowCopy() *Evaluator {
 	return &Evaluator{
 		PolyEvaluator: e.PolyEvaluator.ShallowCopy(),
-		Decomposer:    poly.NewDecomposer(e.PolyEvaluator.Degree(), len(e.Decomposer.GetPolyDecomposedBuffer(1))),
+		Decomposer:    poly.NewDecomposer(e.PolyEvaluator.Degree(), params.GetTRGSWLv1().L*2),
 		Buffers:       NewBufferPool(e.PolyEvaluator.Degree()),
 	}
 }
-- 
2.43.0


From a25cd908aff0030285dacd0ad890f749895781ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:12 +0000
Subject: [PATCH 6/9] fix: keys, masks and noise came from math/rand streams
 with only 2^31-1 distinct seeds

---
 key/key.go               |  5 ++--
 proxyreenc/proxyreenc.go |  4 +--
 tlwe/tlwe.go             |  6 ++---
 trlwe/trlwe.go           |  4 +--
 utils/rng.go             | 53 ++++++++++++++++++++++++++++++++++++++++
 5 files changed, 59 insertions(+), 13 deletions(-)
 create mode 100644 utils/rng.go

diff --git a/key/key.go b/key/key.go
index 7606bcd..7557c24 100644
--- a/key/key.go
+++ b/key/key.go
@@ -1,9 +1,8 @@
 package key
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
+	"github.com/thedonutfactory/go-tfhe/utils"
 )
 
 // SecretKey contains the secret keys for both levels
@@ -14,7 +13,7 @@ type SecretKey struct {
 
 // NewSecretKey generates a new secret key
 func NewSecretKey() *SecretKey {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRNG()
 
 	lv0N := params.GetTLWELv0().N
 	lv1N := params.GetTLWELv1().N
diff --git a/proxyreenc/proxyreenc.go b/proxyreenc/proxyreenc.go
index 79c7e59..8b13489 100644
--- a/proxyreenc/proxyreenc.go
+++ b/proxyreenc/proxyreenc.go
@@ -39,8 +39,6 @@
 package proxyreenc
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
 	"github.com/thedonutfactory/go-tfhe/tlwe"
 	"github.com/thedonutfactory/go-tfhe/utils"
@@ -102,7 +100,7 @@ func NewPublicKeyLv0WithParams(secretKey []params.Torus, size int, alpha float64
 //
 // Returns a TLWELv0 ciphertext encrypting the plaintext.
 func (pk *PublicKeyLv0) EncryptF64(plaintext float64, alpha float64) *tlwe.TLWELv0 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRNG()
 	result := tlwe.NewTLWELv0()
 
 	// Add the plaintext to b
diff --git a/tlwe/tlwe.go b/tlwe/tlwe.go
index 41e534b..115f515 100644
--- a/tlwe/tlwe.go
+++ b/tlwe/tlwe.go
@@ -1,8 +1,6 @@
 package tlwe
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
 	"github.com/thedonutfactory/go-tfhe/utils"
 )
@@ -34,7 +32,7 @@ func (t *TLWELv0) SetB(val params.Torus) {
 
 // EncryptF64 encrypts a float64 value with TLWE Level 0
 func (t *TLWELv0) EncryptF64(p float64, alpha float64, key []params.Torus) *TLWELv0 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRNG()
 	n := params.GetTLWELv0().N
 
 	var innerProduct params.Torus
@@ -154,7 +152,7 @@ func (t *TLWELv1) SetB(val params.Torus) {
 
 // EncryptF64 encrypts a float64 value with TLWE Level 1
 func (t *TLWELv1) EncryptF64(p float64, alpha float64, key []params.Torus) *TLWELv1 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRNG()
 	n := params.GetTLWELv1().N
 
 	var innerProduct params.Torus
diff --git a/trlwe/trlwe.go b/trlwe/trlwe.go
index 0dcae51..49b373e 100644
--- a/trlwe/trlwe.go
+++ b/trlwe/trlwe.go
@@ -1,8 +1,6 @@
 package trlwe
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
 	"github.com/thedonutfactory/go-tfhe/poly"
 	"github.com/thedonutfactory/go-tfhe/tlwe"
@@ -26,7 +24,7 @@ func NewTRLWELv1() *TRLWELv1 {
 
 // EncryptF64 encrypts a vector of float64 values with TRLWE Level 1
 func (t *TRLWELv1) EncryptF64(p []float64, alpha float64, key []params.Torus, polyEval *poly.Evaluator) *TRLWELv1 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRNG()
 	n := params.GetTRLWELv1().N
 
 	// Generate random a
diff --git a/utils/rng.go b/utils/rng.go
new file mode 100644
index 0000000..8fd2a56
--- /dev/null
+++ b/utils/rng.go
@@ -0,0 +1,53 @@
+package utils
+
+import (
+	"crypto/aes"
+	"crypto/cipher"
+	crand "crypto/rand"
+	"encoding/binary"
+	"math/rand"
+)
+
+// NewRNG returns a random generator for keys, masks and noise. It expands a
+// fresh seed from the operating system with AES-CTR, so that two generators
+// never share a stream (a math/rand source only has 2^31-1 distinct seeds).
+//
+// The generator is not safe for concurrent use.
+func NewRNG() *rand.Rand {
+	var seed [32 + aes.BlockSize]byte
+	if _, err := crand.Read(seed[:]); err != nil {
+		panic("utils: no system randomness: " + err.Error())
+	}
+	block, err := aes.NewCipher(seed[:32])
+	if err != nil {
+		panic("utils: " + err.Error())
+	}
+	src := &ctrSource{stream: cipher.NewCTR(block, seed[32:])}
+	src.next = len(src.buf)
+	return rand.New(src)
+}
+
+// ctrSource is a rand.Source64 over a CTR key stream
+type ctrSource struct {
+	stream cipher.Stream
+	buf    [512]byte
+	next   int
+}
+
+func (s *ctrSource) Uint64() uint64 {
+	if s.next == len(s.buf) {
+		s.buf = [512]byte{}
+		s.stream.XORKeyStream(s.buf[:], s.buf[:])
+		s.next = 0
+	}
+	v := binary.LittleEndian.Uint64(s.buf[s.next:])
+	s.next += 8
+	return v
+}
+
+func (s *ctrSource) Int63() int64 {
+	return int64(s.Uint64() >> 1)
+}
+
+// Seed is part of rand.Source; the stream is keyed once and for all
+func (s *ctrSource) Seed(int64) {}
-- 
2.43.0


From c087b7fa0b8aa3044272709d69fd6fc13e5d7439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:13 +0000
Subject: [PATCH 7/9] fix: gadget decomposition truncated instead of rounding,
 so multi-bit bootstraps failed

---
 cloudkey/cloudkey.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudkey/cloudkey.go b/cloudkey/cloudkey.go
index 9ad1863..8967e9d 100644
--- a/cloudkey/cloudkey.go
+++ b/cloudkey/cloudkey.go
@@ -67,6 +67,12 @@ func genDecompositionOffset() params.Torus {
 		offset += params.Torus(bg/2) * params.Torus(1<<(32-((i+1)*int(bgbit))))
 	}
 
+	// Half of the last digit's step: decompose to the nearest value instead of
+	// truncating, which would add a bias to every external product
+	if rest := 32 - l*int(bgbit); rest > 0 {
+		offset += params.Torus(1) << (rest - 1)
+	}
+
 	return offset
 }
 
-- 
2.43.0


From 654cbe8c574408be7998c9116a5e1a0ba9e15115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:27 +0000
Subject: [PATCH 8/9] fix: re-encryption keys whose decomposition covers all 32
 bits panicked

---
 proxyreenc/proxyreenc.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/proxyreenc/proxyreenc.go b/proxyreenc/proxyreenc.go
index 8b13489..2a18d08 100644
--- a/proxyreenc/proxyreenc.go
+++ b/proxyreenc/proxyreenc.go
@@ -213,7 +213,7 @@ func NewProxyReencryptionKeyAsymmetricWithParams(
 
 				// Encrypt k * keyFrom[i] / 2^((j+1)*basebit) using Bob's PUBLIC key
 				shiftAmount := (j + 1) * basebit
-				p := (float64(k) * float64(keyFrom[i])) / float64(uint32(1)<<shiftAmount)
+				p := (float64(k) * float64(keyFrom[i])) / float64(uint64(1)<<shiftAmount)
 				idx := (base * t * i) + (base * j) + k
 
 				// Use public key encryption instead of secret key
@@ -282,7 +282,7 @@ func NewProxyReencryptionKeySymmetricWithParams(
 
 				// Encrypt k * keyFrom[i] / 2^((j+1)*basebit)
 				shiftAmount := (j + 1) * basebit
-				p := (float64(k) * float64(keyFrom[i])) / float64(uint32(1)<<shiftAmount)
+				p := (float64(k) * float64(keyFrom[i])) / float64(uint64(1)<<shiftAmount)
 				idx := (base * t * i) + (base * j) + k
 
 				keyEncryptions[idx].EncryptF64(p, alpha, keyTo)
@@ -333,8 +333,12 @@ func ReencryptTLWELv0(ctFrom *tlwe.TLWELv0, reencKey *ProxyReencryptionKey) *tlw
 	// Start with the b value from the source ciphertext
 	result.SetB(ctFrom.B())
 
-	// Precision offset for rounding (similar to identity key switching)
-	precOffset := params.Torus(1) << (32 - (1 + basebit*t))
+	// Precision offset for rounding (similar to identity key switching);
+	// a decomposition that covers all 32 bits has nothing to round
+	var precOffset params.Torus
+	if rest := 32 - basebit*t; rest > 0 {
+		precOffset = params.Torus(1) << (rest - 1)
+	}
 
 	// Process each coefficient of the source ciphertext
 	for i := 0; i < n; i++ {
-- 
2.43.0


From dd843431094f86f5ee3147f7244e647290fd7efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:07 +0000
Subject: [PATCH 9/9] fix: decode integer messages of large moduli exactly

DecryptLWEMessage divided the phase by an integer-truncated scale, which
is off by whole messages for moduli that are large and not a power of two
(every noise-free message of modulus 65537 but a few decrypted wrongly).
---
 tlwe/programmable_encrypt.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tlwe/programmable_encrypt.go b/tlwe/programmable_encrypt.go
index d5da8a8..3f543ca 100644
--- a/tlwe/programmable_encrypt.go
+++ b/tlwe/programmable_encrypt.go
@@ -30,9 +30,6 @@ func (t *TLWELv0) EncryptLWEMessage(message int, messageModulus int, alpha float
 // Following the reference implementation: num.DivRound(phase, scale) % messageModulus
 // DivRound(a, b) rounds a/b to nearest integer
 func (t *TLWELv0) DecryptLWEMessage(messageModulus int, key []params.Torus) int {
-	// Calculate scale: 2^31 / messageModulus
-	scale := params.Torus(uint64(1)<<31) / params.Torus(messageModulus)
-
 	// Get phase (decrypted value with noise)
 	n := params.GetTLWELv0().N
 	var innerProduct params.Torus
@@ -41,9 +38,10 @@ func (t *TLWELv0) DecryptLWEMessage(messageModulus int, key []params.Torus) int
 	}
 	phase := t.P[n] - innerProduct
 
-	// DivRound: (a + b/2) / b
-	// For unsigned: (phase + scale/2) / scale
-	decoded := int((phase + scale/2) / scale)
+	// Round phase / (2^31 / messageModulus) to the nearest integer. Dividing by
+	// a truncated integer scale instead is off by whole messages when the
+	// modulus is large and not a power of two
+	decoded := int((uint64(phase)*uint64(messageModulus) + 1<<30) >> 31)
 
 	message := decoded % messageModulus
 	if message < 0 {
-- 
2.43.0

