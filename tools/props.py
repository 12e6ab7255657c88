#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

prop("C01", "Fresh encryptions decrypt to the message, under every profile and key",
 "Under every parameter profile and every binary key, encrypting a boolean, a real torus value or an integer message (of any modulus, including negative and out-of-range integers, which count modulo the modulus) gives a ciphertext whose phase is the message's encoding up to the requested noise, and decrypting it returns the message. This holds for single ciphertexts of both dimensions and for ring ciphertexts at every coefficient, with a fresh or a reused receiver. Decryption returns the right message for every ciphertext whose phase error is below the decoding margin.",
 ["inputs", "configurations"], "all 11 profiles, all keys, messages, moduli, noise levels and receivers",
 "Tests encrypt a handful of values at one or two profiles with fresh receivers; level-1 and ring decryption are never checked.",
 ["tlwe/tlwe.go", "tlwe/programmable_encrypt.go", "trlwe/trlwe.go", "utils/utils.go"],
 [("LWE encryption and decryption", "tlwe/tlwe.go EncryptF64, EncryptBool, DecryptBool"), ("message encoding", "tlwe/programmable_encrypt.go"), ("ring encryption", "trlwe/trlwe.go EncryptF64, EncryptBool, DecryptBool")],
 ["ciphertext coefficients after encryption", "decryption results"])

prop("C02", "Every homomorphic gate computes its truth table, on every profile",
 "For every parameter profile that supports boolean data, each gate (AND, OR, NAND, NOR, XOR, XNOR, the four and/or gates with one negated input, MUX, NOT, copy and constants) returns a ciphertext that decrypts to the gate's boolean function of its decrypted inputs. This holds whether the inputs are fresh encryptions, constants, negations, copies or outputs of earlier gates, and when the same ciphertext is passed for several inputs.",
 ["inputs", "configurations", "programs"], "all gates, all input values and origins, profiles 80, 110, 128, Uint1-Uint5, any sharing of inputs",
 "Tests run each truth table at the 128-bit profile on fresh inputs; other profiles, constants, shared inputs and gate outputs as inputs are not covered.",
 ["gates/gates.go", "evaluator/gates_helper.go", "evaluator/evaluator.go", "cloudkey/cloudkey.go"],
 [("gate preparation", "evaluator/gates_helper.go, gates/gates.go"), ("bootstrapping", "evaluator/evaluator.go BootstrapAssign")],
 ["decrypted gate results", "phases of gate results"])

prop("C03", "A bootstrap resets noise, so circuits of any depth stay correct",
 "The noise of a bootstrapped ciphertext (gate output or programmable bootstrap output) is bounded by a constant of the profile, far below the decoding margin, whatever the noise of the inputs as long as they are on the right side of the decision boundary. Hence noise does not accumulate with circuit depth, and a circuit of any depth and shape decrypts to its plaintext evaluation.",
 ["programs", "inputs", "configurations"], "all circuits, all admissible input noises, all profiles with bootstrapping",
 "Tests evaluate circuits of depth one to ten on fresh inputs and look at decrypted bits only, never at the noise.",
 ["evaluator/evaluator.go", "gates/gates.go", "trgsw/trgsw.go", "trgsw/keyswitch.go", "cloudkey/cloudkey.go"],
 [("blind rotation of a fresh test vector", "evaluator/evaluator.go BlindRotateAssign"), ("rounding decomposition", "cloudkey/cloudkey.go genDecompositionOffset"), ("key switching precision", "trgsw/keyswitch.go")],
 ["phase error of every intermediate ciphertext"])

prop("C04", "Batch gates equal the individual gates, item by item",
 "For every list of input pairs, of any length including zero and far beyond the number of processors, each batch gate returns one independent ciphertext per pair, in order, decrypting to the gate's boolean function of that pair. The result does not depend on scheduling, on the number of processors, on earlier batches, or on other batches running at the same time.",
 ["inputs", "schedules", "histories"], "all six batch gates, batch lengths, input contents and sharing, processor counts, overlapping batches",
 "Tests run batches of four AND/OR/XOR pairs once; longer batches, the other gates, reuse and overlap are not covered.",
 ["gates/gates.go", "trgsw/trgsw.go"],
 [("parallel blind rotation with pooled evaluators", "trgsw/trgsw.go BatchBlindRotate"), ("parallel extraction and key switching", "gates/gates.go Batch*")],
 ["batch results and their decryptions", "backing arrays of the results"])

prop("C05", "Programmable bootstrapping evaluates any function of the message",
 "For every profile and message modulus it supports, every function on the message space (including ones returning negative or out-of-range values, taken modulo the modulus) and every message, bootstrapping a ciphertext with the function or with its precomputed lookup table gives a ciphertext that decrypts to the function of the message. All entry points (function or table, allocating, temporary or writing to a given output) agree, and a table can be reused any number of times.",
 ["inputs", "configurations", "histories"], "profiles 80, 110, 128, Uint1-Uint5, supported moduli, all functions and messages, all entry points, repeated use",
 "Tests use three or four functions at modulus 2 and a subset of inputs for the Uint profiles; arbitrary functions, other moduli, output-writing variants and chaining are not covered.",
 ["evaluator/programmable_bootstrap.go", "evaluator/evaluator.go", "lut/generator.go", "tlwe/programmable_encrypt.go"],
 [("lookup table generation", "lut/generator.go"), ("table rotation", "evaluator/programmable_bootstrap.go BootstrapLUTAssign")],
 ["decrypted results", "phase error of results against the table entry selected by the input"])

prop("C06", "A generated lookup table encodes its function at every rotation",
 "For every polynomial degree, message modulus, output scale and function, the generated table, read at any rotation index of the doubled circle, gives the encoding of the function at the nearest message for the first half-circle and its negation for the other half, and its mask part is zero. This holds for integer-valued and torus-valued functions, default and custom scales, and fresh or reused tables; integer-valued and torus-valued generation of the same values give the same table; copies are independent of the original and generating one table leaves the generator's settings unchanged.",
 ["inputs", "configurations"], "all degrees, moduli, scales, functions, all 2N rotation indices, reused tables",
 "Tests log tables or look at a few entries of modulus 2 and 4.",
 ["lut/generator.go", "lut/encoder.go", "lut/lut.go"],
 [("range filling, half-range offset and tail negation", "lut/generator.go GenLookUpTableAssign, GenLookUpTableFullAssign"), ("custom scale", "lut/generator.go GenLookUpTableCustom")],
 ["table polynomials", "generator settings before and after"])

prop("C07", "Message encoding and decoding are inverse, also under bounded noise",
 "For every message modulus and scale, decoding the encoding of an integer gives that integer modulo the modulus, and still does after any perturbation below half the distance between encodings; where the scale divides the torus into a whole multiple of the modulus this includes perturbations across the wrap-around of the torus. Switching a torus value to the table size rounds to the nearest table index, always inside the table.",
 ["inputs", "configurations"], "all moduli, scales, messages, perturbations and torus values",
 "Tests encode a few messages of moduli 2, 4 and 8 without noise and test five values of the modulus switch for range only.",
 ["lut/encoder.go", "lut/generator.go"],
 [("Encode/Decode", "lut/encoder.go"), ("ModSwitch", "lut/generator.go")],
 ["encoded values, decoded messages, switched indices"])

prop("C08", "Operations never change their inputs and results stay intact",
 "No homomorphic operation (gate, batch gate, bootstrap, programmable bootstrap, external product, multiplexer, rotation, extraction, key switch, re-encryption, linear operation) changes its input ciphertexts, lookup tables, keys or other key material. A returned ciphertext is never changed by later operations, except for results documented as temporary, which stay valid until the fourth further bootstrap on the same evaluator.",
 ["histories", "inputs"], "all operations in any order, inputs reused and shared in any way, any number of later operations",
 "Tests decrypt results immediately and never look at inputs, keys or older results again.",
 ["evaluator/evaluator.go", "evaluator/buffers.go", "evaluator/programmable_bootstrap.go", "gates/gates.go", "trgsw/trgsw.go", "tlwe/tlwe.go", "poly/fourier_transform.go"],
 [("copying results out of scratch buffers", "gates/gates.go bootstrap, evaluator/programmable_bootstrap.go BootstrapLUT"), ("round-robin result buffers", "evaluator/buffers.go GetNextResult"), ("copy before returning an evaluator to the pool", "trgsw/trgsw.go BatchBlindRotate")],
 ["hashes of all inputs, keys, tables and earlier results after every operation"])

prop("C09", "Evaluator results do not depend on its history",
 "The result of an operation on an evaluator depends only on the operation's arguments: a new evaluator, one that has done any sequence of other operations (with other keys, tables, or after resetting its buffers), and a copy of either give the same ciphertext bit for bit. Results written to a caller's output do not depend on what that output held before.",
 ["histories", "inputs", "configurations"], "all operation sequences, all evaluator states, copies, dirty outputs",
 "Tests use one evaluator for a few operations and never compare evaluators; copies are never used.",
 ["evaluator/evaluator.go", "evaluator/buffers.go", "poly/poly_evaluator.go", "poly/buffer_methods.go", "poly/decomposer.go", "trgsw/trgsw.go"],
 [("clearing of accumulators", "evaluator/evaluator.go ExternalProductAssign, trgsw/trgsw.go ExternalProductWithFFT"), ("copying of evaluators", "evaluator/evaluator.go ShallowCopy, poly/poly_evaluator.go ShallowCopy")],
 ["result coefficients of the same call on evaluators with different histories"])

prop("C10", "Documented concurrent use is race-free and gives the sequential results",
 "Evaluators used one per goroutine (new ones or copies of a shared one), batch gates, key generation, encryption, decryption and re-encryption may run at the same time, sharing keys, tables and inputs, without data races. Each result equals what the same call gives when run alone, under every schedule and processor count.",
 ["schedules"], "all interleavings of concurrent users of shared keys, tables and inputs",
 "The suite is sequential and is not run with the race detector; copies of evaluators are never used.",
 ["evaluator/evaluator.go", "poly/poly_evaluator.go", "trgsw/trgsw.go", "gates/gates.go", "cloudkey/cloudkey.go", "proxyreenc/proxyreenc.go", "utils/rng.go"],
 [("per-goroutine buffers", "poly/poly_evaluator.go ShallowCopy, evaluator/evaluator.go ShallowCopy"), ("pool and wait groups", "trgsw/trgsw.go BatchBlindRotate, cloudkey/cloudkey.go")],
 ["race detector reports", "results of concurrent calls against sequential ones"])

prop("C11", "Linear operations on ciphertexts are exact",
 "Adding, subtracting, negating and adding or subtracting an integer multiple of ciphertexts gives exactly the corresponding combination of every coefficient modulo 2^32, for every profile and all coefficient and multiplier values. Consequently the phase of the result is exactly that combination of the input phases. The variant writing to an output gives the same result, also when the output is one of the inputs.",
 ["inputs", "configurations"], "all profiles, all coefficients, multipliers and aliasing of inputs and output",
 "No test checks these operations directly; gates exercise only multipliers 1 and 2.",
 ["tlwe/tlwe.go", "evaluator/gates_helper.go"],
 [("coefficient-wise arithmetic", "tlwe/tlwe.go Add, AddAssign, Sub, Neg, AddMul, SubMul, Mul"), ("gate input combinations", "evaluator/gates_helper.go")],
 ["every coefficient of the result"])

prop("C12", "Polynomial multiplication is negacyclic and accurate",
 "For every supported degree, multiplying a polynomial with small integer coefficients by an arbitrary torus polynomial gives exactly the product modulo X^N+1 and 2^32 whenever the exact integer product fits double precision, and otherwise an approximation whose error stays within the rounding error of double precision. The accumulating and subtracting variants add or subtract exactly that product, and no operand is changed.",
 ["inputs", "configurations"], "all power-of-two degrees from 16, all operands and accumulator contents",
 "The one multiplication test does not check values; only degree 1024 is used.",
 ["poly/poly_mul.go", "poly/fourier_transform.go", "poly/fourier_ops.go", "poly/poly_evaluator.go"],
 [("folded FFT with precomputed twiddles", "poly/fourier_transform.go fftInPlace, ifftInPlace"), ("reduction modulo 2^32", "poly/fourier_transform.go floatModQInPlace")],
 ["all coefficients of the product against exact schoolbook multiplication"])

prop("C13", "The Fourier transform is an invertible ring homomorphism",
 "For every supported degree, transforming a torus polynomial to the Fourier domain and back returns it unchanged, and addition, subtraction, multiplication, multiply-add, multiply-subtract and scaling in the Fourier domain correspond to the ring operations. Outputs may coincide with operands, outputs that are only written may hold anything before, and operations that are not documented to destroy their Fourier operand leave it unchanged.",
 ["inputs", "configurations"], "all power-of-two degrees from 16, all polynomials, in-place use, dirty outputs",
 "Tests round-trip a few polynomials of degree 1024; the other Fourier operations are not checked.",
 ["poly/fourier_transform.go", "poly/fourier_ops.go", "poly/buffer_methods.go", "poly/poly.go"],
 [("forward and inverse transforms", "poly/fourier_transform.go"), ("element-wise complex arithmetic", "poly/fourier_ops.go")],
 ["polynomials after transforming back", "operand hashes"])

prop("C14", "Multiplication by a monomial is the signed cyclic shift",
 "Multiplying a polynomial by X^k modulo X^N+1 moves every coefficient by k positions and negates exactly those that wrap around an odd number of times, for every integer k (negative or beyond 2N) and every degree, up to one least significant bit on negated coefficients. The pooled, direct and in-place-buffer variants agree.",
 ["inputs", "configurations"], "all exponents, degrees and coefficients",
 "Rotation is only reached through bootstrapping, at degree 512-2048 and at the exponents random masks produce.",
 ["poly/buffer_methods.go"],
 [("PolyMulWithXK variants", "poly/buffer_methods.go")],
 ["all coefficients of the rotated polynomial"])

prop("C15", "Gadget decomposition recombines to the nearest representable value",
 "For every profile's base and number of levels, decomposing a torus polynomial with the cloud key's offset gives digits of magnitude at most half the base whose weighted sum is within half of the smallest weight of the input, at every coefficient. The digits depend on the input coefficient and on nothing else.",
 ["inputs", "configurations"], "all coefficients (2^32 values), bases, levels, profiles",
 "No test looks at decomposition.",
 ["poly/decomposer.go", "trgsw/trgsw.go", "cloudkey/cloudkey.go"],
 [("digit extraction with offset", "poly/decomposer.go DecomposePolyAssign, trgsw/trgsw.go decompositionInPlace"), ("offset", "cloudkey/cloudkey.go genDecompositionOffset")],
 ["digits of every coefficient"])

prop("C16", "External product multiplies, and the multiplexer selects",
 "The product of an encrypted small integer (a key bit, in particular) with a ring ciphertext encrypts, up to bounded noise, the ring ciphertext's plaintext times that integer, and the encrypted multiplexer returns a ciphertext of the first input's plaintext for bit 0 and of the second's for bit 1, for every profile, key and pair of inputs. Both implementations offered by the library satisfy this.",
 ["inputs", "configurations"], "all profiles, keys, bits, ring plaintexts and ciphertexts",
 "No test calls either implementation directly.",
 ["evaluator/evaluator.go", "trgsw/trgsw.go"],
 [("ExternalProductAssign, CMuxAssign", "evaluator/evaluator.go"), ("ExternalProductWithFFT, CMUX", "trgsw/trgsw.go")],
 ["phase of every coefficient of the result"])

prop("C17", "Blind rotation rotates the table by the encrypted phase",
 "For every ciphertext, key, profile and table polynomial, blind rotation returns a ring ciphertext of the table rotated backwards by the ciphertext's phase, rounded coefficient-wise to the grid of 2N points, at every coefficient and up to bounded noise. This includes coefficients that round up to a full turn, and the single, batch and evaluator-based implementations agree.",
 ["inputs", "configurations"], "all profiles, keys, ciphertexts (boundary coefficients included) and test vectors",
 "Tests see only coefficient 0 after extraction and key switching, for random masks and constant test vectors.",
 ["evaluator/evaluator.go", "trgsw/trgsw.go"],
 [("BlindRotateAssign", "evaluator/evaluator.go"), ("BlindRotate, BatchBlindRotate", "trgsw/trgsw.go")],
 ["phase of every coefficient of the rotated table"])

prop("C18", "Sample extraction yields exactly the chosen coefficient",
 "For every ring ciphertext, key and index, extracting at that index gives a ciphertext under the same key, read as a vector, whose phase is the phase of that coefficient of the ring ciphertext, up to one least significant bit per negated mask coefficient. The variant writing to an output agrees whatever the output held before, and the direct level-0 variant agrees where the dimensions match and refuses otherwise.",
 ["inputs", "configurations"], "all indices 0..N-1, all ring ciphertexts, keys and profiles",
 "Tests only ever extract index 0, through bootstrapping.",
 ["trlwe/trlwe.go", "trlwe/trlwe_ops.go"],
 [("SampleExtractIndex, SampleExtractIndex2", "trlwe/trlwe.go"), ("SampleExtractIndexAssign", "trlwe/trlwe_ops.go")],
 ["coefficients and phase of the extracted sample"])

prop("C19", "Key switching preserves the plaintext",
 "Switching any ciphertext from the large key to the small key with the matching switching key preserves its phase up to the rounding of the decomposition and the noise of the key entries used, for every profile and ciphertext, including masks of extreme values. The variant writing to an output gives the same ciphertext whatever the output held before.",
 ["inputs", "configurations"], "all ciphertexts (boundary masks included), keys and profiles",
 "Key switching is only reached through bootstrapping with its other noise hiding errors.",
 ["trgsw/trgsw.go", "trgsw/keyswitch.go"],
 [("IdentityKeySwitching", "trgsw/trgsw.go"), ("IdentityKeySwitchingAssign", "trgsw/keyswitch.go")],
 ["phase before and after switching"])

prop("C20", "Generated keys are well formed in every entry",
 "A generated secret key has the profile's dimensions and binary, unbiased entries. Every entry of a generated cloud key is consistent with the secret key: each key-switching entry encrypts its digit multiple of the right key bit at the right weight, each bootstrapping entry encrypts the right key bit at every gadget row, with the profile's noise and a mask of its own, and the test vector and decomposition offset are the profile's.",
 ["inputs", "configurations", "schedules"], "all entries, profiles, secret keys and generation schedules",
 "Tests only use keys for a few gates; a wrong entry among tens of thousands changes results too rarely to be seen.",
 ["key/key.go", "cloudkey/cloudkey.go", "trgsw/trgsw.go"],
 [("parallel generation", "cloudkey/cloudkey.go genKeySwitchingKey, genBootstrappingKey"), ("TRGSW encryption", "trgsw/trgsw.go EncryptTorus, NewTRGSWLv1FFT"), ("secret key", "key/key.go NewSecretKey")],
 ["phase of every entry of the key"])

prop("C21", "Keys, masks and noise are fresh, unbiased and never repeat",
 "Every secret key, every encryption mask and every noise value is drawn anew: no two keys and no two ciphertexts (also across processes, goroutines, ciphertext kinds and key entries) share a mask or a key, re-encrypting the same message gives an unrelated ciphertext, and streams do not come from a small set of seeds. Mask coefficients are uniform, key bits are unbiased and independent, noise is centred with the requested standard deviation, and neither mask nor body alone shows the message.",
 ["inputs", "histories", "schedules", "configurations"], "all encryptions and key generations of any number of sessions",
 "Collisions and bias are properties of many draws; tests make a handful and never compare them.",
 ["utils/rng.go", "tlwe/tlwe.go", "trlwe/trlwe.go", "key/key.go", "proxyreenc/proxyreenc.go", "utils/utils.go"],
 [("generator per encryption", "utils/rng.go NewRNG and its callers"), ("Gaussian sampling", "utils/utils.go GaussianTorus")],
 ["all masks, keys and noise values drawn in the run"])

prop("C22", "Proxy re-encryption moves ciphertexts to the target key only",
 "Re-encrypting a ciphertext under the delegator's key with a re-encryption key gives a ciphertext that decrypts to the same message under the delegatee's key, for symmetric and asymmetric keys, default and custom decomposition settings, every profile and across chains of several hops, as long as the accumulated noise stays below the margin. The phase error is bounded by the decomposition rounding plus the noise of the key entries, and the result is not readable under the delegator's or any other key, nor is the re-encryption key usable in the other direction.",
 ["inputs", "configurations", "histories"], "all key pairs, messages, modes, decomposition settings and hop chains",
 "Tests use a few messages at one profile with default settings and only decrypt.",
 ["proxyreenc/proxyreenc.go"],
 [("key generation", "proxyreenc/proxyreenc.go NewProxyReencryptionKey*"), ("re-encryption", "proxyreenc/proxyreenc.go ReencryptTLWELv0")],
 ["phases under both keys", "every entry of the re-encryption key"])

prop("C23", "Public-key encryption is correct and randomised",
 "Encrypting a boolean or a real value under a public key gives a ciphertext that decrypts to it under the matching secret key only, with noise that follows the number and noise of the public samples, for default and custom public keys on every profile. Two encryptions of the same value differ, and encrypting leaves the public key unchanged.",
 ["inputs", "configurations"], "all keys, sizes, noise levels, values, profiles",
 "Tests encrypt a few booleans with the default key.",
 ["proxyreenc/proxyreenc.go"],
 [("public key of zero encryptions", "proxyreenc/proxyreenc.go NewPublicKeyLv0WithParams"), ("random signed subset sum", "proxyreenc/proxyreenc.go EncryptF64")],
 ["phases of public-key ciphertexts", "public key samples"])

prop("C24", "Integers survive conversion to bits and encrypted bits",
 "Converting an unsigned integer of any width to bits and back gives the integer, bits are least significant first, and shorter or longer bit lists convert modulo the width. Encrypting the bits and decrypting them gives the same bits in the same order, for every profile and key.",
 ["inputs", "configurations"], "all integers of all widths, all bit list lengths, profiles and keys",
 "Tests convert a few sample integers.",
 ["bitutils/bitutils.go"],
 [("bit conversions", "bitutils/bitutils.go"), ("bitwise encryption", "bitutils/bitutils.go EncryptBits, DecryptBits")],
 ["bit lists and integers"])

prop("C25", "Torus conversion and Gaussian sampling follow their definitions",
 "Converting a real number to the torus keeps its fractional part to within one unit of 2^-32, for negative numbers and numbers beyond one as well, converting back inverts it, and vectors convert element by element. Gaussian samples around a centre have that centre as mean and the requested standard deviation, with normal tails on both sides, and depend only on the generator passed in.",
 ["inputs"], "all reals, all torus values, centres, deviations and generator states",
 "Tests convert a few values and sample a few noises without checking the distribution.",
 ["utils/utils.go"],
 [("F64ToTorus, TorusToF64", "utils/utils.go"), ("Gaussian samplers", "utils/utils.go")],
 ["converted values", "moments and tails of samples"])

prop("C26", "Switching parameter profiles between sessions is safe",
 "After any sequence of profile selections, with keys, ciphertexts, evaluators, gates, batches and re-encryption used under each, everything created and computed under the selected profile behaves exactly as in a process that only ever used that profile. Keys and ciphertexts made earlier work again when their profile is selected again.",
 ["histories", "configurations"], "all sequences of profile switches and operations",
 "Each test package stays at one profile or switches without computing under the old one again.",
 ["params/params.go", "gates/gates.go", "trgsw/trgsw.go", "evaluator/evaluator.go"],
 [("profile lookup at each call", "params/params.go"), ("rebuilding the shared evaluator", "gates/gates.go currentEval"), ("degree check of pooled evaluators", "trgsw/trgsw.go BatchBlindRotate")],
 ["decrypted results and dimensions after every switch"])

prop("C27", "No operation reads or writes outside its buffers",
 "No operation, on valid inputs of any supported degree and profile, reads or writes memory outside the buffers it was given or owns, although the polynomial code bypasses bounds checks. This includes buffers that end at the edge of mapped memory and buffers embedded in larger arrays.",
 ["inputs", "configurations"], "all polynomial, Fourier, decomposition, rotation and ciphertext operations at all degrees and buffer placements",
 "Out-of-bounds accesses in unchecked code are silent in ordinary test runs.",
 ["poly/fourier_transform.go", "poly/fourier_ops.go", "poly/aligned.go", "poly/decomposer.go", "poly/buffer_methods.go"],
 [("fixed-size array views through unsafe pointers", "poly/fourier_ops.go, poly/fourier_transform.go")],
 ["guard pages around buffers", "canaries", "checkptr and address sanitizer reports"])

prop("C28", "Homomorphic integer arithmetic matches integer arithmetic",
 "Adders, subtractors, comparators and selectors built from gates, and nibble-wise adders built from ciphertext additions and programmable bootstraps, give the integer result for all operands, widths and profiles they are documented for. Results can be fed into further arithmetic indefinitely.",
 ["inputs", "programs", "configurations"], "all operands, circuits, chains of operations",
 "Tests and examples add one or two fixed pairs of numbers.",
 ["gates/gates.go", "bitutils/bitutils.go", "evaluator/programmable_bootstrap.go", "lut/generator.go", "tlwe/tlwe.go"],
 [("gates", "gates/gates.go"), ("programmable bootstrapping", "evaluator/programmable_bootstrap.go"), ("ciphertext addition", "tlwe/tlwe.go Add")],
 ["decrypted integers"])

prop("C29", "Parameter profiles are consistent and as documented",
 "Every profile's parameters fit together (the two large dimensions agree and are powers of two, the gadget and key-switching decompositions fit the 32-bit torus, the base matches its bit length, block counts cover the dimension) and have the documented dimensions, noise levels and message moduli. Reading them depends only on the selected profile, an unknown selection means the 128-bit default, and no operation changes them.",
 ["configurations", "histories"], "all profiles, unknown selections, any operations in between",
 "Tests check a few fields of two profiles.",
 ["params/params.go"],
 [("profile tables and selection", "params/params.go")],
 ["all parameter getters at all selections"])

prop("C30", "Operations leave nothing behind and the hot path does not allocate",
 "When an operation has returned, nothing of it runs on: no goroutine, no open descriptor. What the caller then drops (ciphertexts, tables, keys, evaluators) can be reclaimed, since no cache or pool keeps it, and a program that repeats operations with ever different inputs, functions, moduli, keys and profiles does not grow. The operations documented as free of allocation, above all external products, blind rotations and bootstraps on an evaluator, allocate no buffers per call.",
 ["histories", "inputs"], "all sequences and numbers of operations, all inputs, functions, moduli and keys",
 "Tests end after a few calls and never look at goroutines, retained objects or allocation.",
 ["evaluator/", "gates/gates.go", "trgsw/trgsw.go", "poly/poly_evaluator.go", "lut/generator.go", "proxyreenc/proxyreenc.go"],
 [("preallocated buffers", "evaluator/buffers.go, poly/poly_evaluator.go"), ("worker goroutines and evaluator pools", "gates/gates.go, trgsw/trgsw.go BatchBlindRotate, cloudkey/cloudkey.go"), ("shared evaluator", "gates/gates.go currentEval")],
 ["bytes allocated per call", "goroutines and descriptors after a call", "finalized objects", "live heap after many calls"])

prop("C31", "Buffers handed out are right-sized, clear and separate, and misuse is refused",
 "Every constructor of polynomials, ciphertexts, tables, keys, evaluators and buffers returns objects of exactly the requested degree or the profile's dimension, cleared, and sharing no memory with any other object; copies are equal and independent. Pools of temporary buffers hand out four different buffers in turn, which keep what was put into them until they are handed out again, as do the numbered and named work buffers until they are used again. Degrees that are not a power of two of at least 16, decomposition levels and buffer indexes beyond what exists, unknown buffer names and extraction between mismatched dimensions are refused by a panic instead of giving a wrong result.",
 ["inputs", "histories"], "all degrees, levels, indexes and names, all sequences of operations on pools and named buffers",
 "Tests use only the degrees of the profiles and never hold several pooled buffers.",
 ["poly/poly.go", "poly/aligned.go", "poly/buffer_manager.go", "poly/buffer_methods.go", "poly/decomposer.go", "poly/poly_evaluator.go", "evaluator/buffers.go", "lut/lut.go", "trlwe/trlwe.go"],
 [("degree checks", "poly/poly.go, poly/aligned.go, poly/poly_evaluator.go"), ("round-robin pools", "poly/buffer_methods.go, poly/buffer_manager.go, evaluator/buffers.go GetNextResult"), ("named buffers", "poly/buffer_methods.go"), ("level checks", "poly/decomposer.go"), ("dimension check", "trlwe/trlwe.go SampleExtractIndex2")],
 ["lengths, contents and addresses of objects", "contents of held buffers after every step", "panics on invalid arguments"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
