#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

KAT1 = "The unit tests run one known-answer vector per variant (one zeroed RNG); "

prop("C01", "Sender and receiver always derive the same shared key",
 "For each variant, whatever bytes the random number generator delivers (as long as the sampled secret polynomials are non-zero), encapsulating to a generated public key and decapsulating the resulting ciphertext with the matching secret key yields the same 32-byte shared key on both sides. There is no decryption failure, not even for the randomness that brings the decryption noise to its theoretical maximum.",
 ["inputs", "configurations"], "all RNG outputs used by key generation and encapsulation, all four variants, with and without arithmetic checks compiled in",
 KAT1 + "perfect correctness is a statement about all pairs (key randomness, message randomness), including the worst-case aligned ones random sampling never reaches.",
 ["src/kem.rs", "src/owcpa.rs", "src/poly.rs", "src/poly_mod.rs", "src/poly_lift.rs", "src/poly_rq_mul.rs"],
 [("crypto_kem_keypair / crypto_kem_enc / crypto_kem_dec", "src/kem.rs"), ("owcpa_dec message and r recovery", "src/owcpa.rs"), ("centred reduction poly_rq_to_s3", "src/poly_mod.rs"), ("poly_lift", "src/poly_lift.rs")],
 observe=["the two shared keys"])

prop("C02", "Key generation is exactly the NTRU round-3 function of the RNG bytes",
 "For each variant and every RNG output (with non-zero sampled secrets), key generation draws randomness in the reference order and amounts and produces byte for byte the public key and the secret key that the NTRU round-3 specification assigns to those bytes. In particular keys interoperate with, and reproduce, those of any other conforming implementation.",
 ["inputs", "configurations"], "all RNG outputs, all four variants",
 KAT1 + "a wrong branch of sampling, inversion, lifting or packing that this vector does not exercise goes unnoticed.",
 ["src/kem.rs", "src/owcpa.rs", "src/sample.rs", "src/sample_iid.rs", "src/crypto_sort_int32.rs", "src/poly_r2_inv.rs", "src/poly_s3_inv.rs", "src/poly.rs", "src/packq.rs", "src/pack3.rs"],
 [("owcpa_keypair", "src/owcpa.rs"), ("sample_fg", "src/sample.rs"), ("poly_s3_inv", "src/poly_s3_inv.rs"), ("poly_rq_inv", "src/poly.rs"), ("poly_sq_tobytes / poly_s3_tobytes", "src/packq.rs, src/pack3.rs")],
 observe=["pk and sk bytes", "sequence of RNG requests"])

prop("C03", "Encapsulation is exactly the NTRU round-3 function of key and RNG bytes",
 "For each variant, every byte string of public-key length and every RNG output, encapsulation succeeds, draws randomness in the reference amount, and produces byte for byte the ciphertext and the shared key that the NTRU round-3 specification assigns to them.",
 ["inputs", "configurations"], "all public-key byte strings (well-formed or not) and all RNG outputs, all four variants",
 KAT1 + "ring multiplication, the fixed-weight shuffle (a sorting network over 508..820 words, tested on 7), lifting and packing are exercised on one operand pair.",
 ["src/kem.rs", "src/owcpa.rs", "src/sample.rs", "src/crypto_sort_int32.rs", "src/poly_rq_mul.rs", "src/poly_lift.rs", "src/packq.rs", "src/pack3.rs"],
 [("crypto_kem_enc", "src/kem.rs"), ("owcpa_enc", "src/owcpa.rs"), ("sample_rm / sample_fixed_type", "src/sample.rs"), ("crypto_sort_int32", "src/crypto_sort_int32.rs"), ("poly_rq_mul", "src/poly_rq_mul.rs")],
 observe=["ct and shared key bytes", "sequence of RNG requests"])

prop("C04", "Decapsulation is exactly the NTRU round-3 function of key and ciphertext",
 "For each variant and every pair of byte strings of secret-key and ciphertext length, well-formed or not, decapsulation succeeds and returns byte for byte the shared key that the NTRU round-3 specification assigns to that pair.",
 ["inputs", "configurations"], "all (secret key, ciphertext) byte strings, all four variants",
 KAT1 + "only one honest pair is decapsulated, so neither the rejection path nor non-canonical encodings nor other keys are ever executed.",
 ["src/kem.rs", "src/owcpa.rs", "src/poly.rs", "src/poly_mod.rs", "src/poly_lift.rs", "src/packq.rs", "src/pack3.rs", "src/cmov.rs"],
 [("crypto_kem_dec", "src/kem.rs"), ("owcpa_dec", "src/owcpa.rs"), ("poly_s3_frombytes / poly_sq_frombytes", "src/pack3.rs, src/packq.rs"), ("cmov", "src/cmov.rs")],
 observe=["shared key bytes"])

prop("C05", "Every ciphertext no honest sender can produce is implicitly rejected",
 "For every generated key pair and every ciphertext that is not the encapsulation of some valid (r, m) under the matching public key - including ciphertexts whose r or m lies just outside the allowed space, ciphertexts with non-zero unused bits, and ciphertexts made for other keys - decapsulation reports no error and returns SHA3-256(rejection secret || ciphertext). For every ciphertext that is such an encapsulation it returns SHA3-256 of the packed (r, m), whatever the rejection secret is.",
 ["inputs", "configurations"], "all generated keys, all ciphertext byte strings (adversarially chosen ones included), all rejection secrets, all four variants",
 "The unit tests never decapsulate an invalid ciphertext, so the whole chosen-ciphertext defence (padding check, r check, m check, constant-time replacement) can be broken unnoticed.",
 ["src/kem.rs", "src/owcpa.rs", "src/cmov.rs"],
 [("owcpa_check_ciphertext", "src/owcpa.rs"), ("owcpa_check_r", "src/owcpa.rs"), ("owcpa_check_m", "src/owcpa.rs"), ("PRF hash and cmov", "src/kem.rs, src/cmov.rs")],
 observe=["shared key returned for the crafted ciphertext"])

prop("C06", "Distinct ciphertexts never decapsulate to the same shared key",
 "Under any generated secret key, any two different ciphertext byte strings of the right length - in particular a valid ciphertext and any string obtained from it by flipping bits, setting unused bits, or re-encoding - decapsulate to different shared keys (up to SHA3 collisions). Likewise an invalid ciphertext decapsulates to different keys under secret keys that differ only in their rejection secret.",
 ["inputs"], "all pairs of ciphertexts under one key; all pairs of rejection secrets for one invalid ciphertext",
 "Needs pairs of related ciphertexts; the unit tests look at one ciphertext per variant.",
 ["src/kem.rs", "src/owcpa.rs", "src/packq.rs", "src/cmov.rs"],
 [("unused-bit check", "src/owcpa.rs"), ("hashing of the whole ciphertext with the rejection secret", "src/kem.rs"), ("full-length cmov", "src/cmov.rs")],
 observe=["shared keys of a family of related ciphertexts"])

prop("C07", "Every generated key pair satisfies the NTRU key equations",
 "For every RNG output with non-zero sampled secrets: the stored inverse of f modulo 3 really is f's inverse; the stored inverse of the public key modulo q really is its inverse; the public key's coefficients sum to zero modulo q; and f times the public key equals three times a short g of the variant's prescribed shape (times x-1 for HRSS), all modulo the cyclotomic polynomial. The last 32 bytes of the secret key are the last 32 random bytes drawn.",
 ["inputs", "configurations"], "all RNG outputs, all four variants",
 KAT1 + "the inversion algorithms (almost-inverse divsteps mod 2 and mod 3, Newton lifting) are run on one polynomial.",
 ["src/owcpa.rs", "src/poly_s3_inv.rs", "src/poly_r2_inv.rs", "src/poly.rs", "src/kem.rs"],
 [("poly_s3_inv", "src/poly_s3_inv.rs"), ("poly_r2_inv + poly_r2_inv_to_rq_inv", "src/poly_r2_inv.rs, src/poly.rs"), ("owcpa_keypair", "src/owcpa.rs")],
 observe=["polynomials decoded from pk and sk"])

prop("C08", "Sampled secrets always lie in the scheme's spaces and follow the RNG bytes",
 "For every RNG output the sampled polynomials have coefficients in {-1,0,1} and zero top coefficient; uniform ones equal the RNG bytes reduced modulo 3, position by position; for the HPS variants g and m have exactly q/16-1 coefficients +1 and q/16-1 coefficients -1, arranged by ascending (signed) order of the 30-bit random words; for HRSS f and g have non-negative correlation with their shift.",
 ["inputs", "configurations"], "all RNG outputs (equal, extreme, ordered and adversarial words included), all four variants",
 "The sort is tested on 7 integers and the samplers only on one byte stream; sortedness of a network must hold for all inputs at the sizes really used.",
 ["src/sample.rs", "src/sample_iid.rs", "src/crypto_sort_int32.rs", "src/poly_mod.rs"],
 [("sample_iid", "src/sample_iid.rs"), ("sample_iid_plus, sample_fixed_type", "src/sample.rs"), ("crypto_sort_int32", "src/crypto_sort_int32.rs")],
 observe=["f in the secret key; g recovered from f and the public key; r and m recovered from ciphertexts made for chosen public keys"])

prop("C09", "No input makes the library panic or behave differently per build profile",
 "For all byte strings of the fixed lengths given as public key, secret key or ciphertext, all outputs of an infallible RNG (degenerate ones such as all zero bytes included), all generator states and all request lengths, every public operation returns normally with success. The bytes it produces are the same whether or not the crate is built with overflow checks and debug assertions.",
 ["inputs", "configurations"], "all inputs of all public operations, four variants x two build profiles",
 "Arithmetic overflow panics depend on rare intermediate values (about one key generation in thousands); the unit tests execute a handful of operations and only in the dev profile.",
 ["src/poly.rs", "src/rng.rs", "src/owcpa.rs", "src/sample.rs", "src/poly_mod.rs", "src/poly_lift.rs", "src/poly_s3_inv.rs", "src/poly_r2_inv.rs", "src/pack3.rs", "src/packq.rs"],
 [("wrapping arithmetic where values may exceed the word", "src/poly.rs, src/poly_rq_mul.rs, src/owcpa.rs, src/rng.rs"), ("fixed-size array indexing", "all modules")],
 observe=["return value / panic", "output bytes in both profiles"])

prop("C10", "Operations are pure: no dependence on history, buffers or other threads",
 "The result of any operation is a function of its inputs and the bytes its RNG delivers only: it does not depend on earlier or concurrent operations (successful or failed), on the previous contents of the output buffers, on where buffers lie in memory, or on which thread runs it. Each output buffer is completely overwritten, inputs are left as they are, and operations with equal inputs give equal results.",
 ["histories", "schedules", "inputs"], "all sequences of operations with shared and related keys, arbitrary buffer contents and alignments, concurrent execution",
 "Every unit test makes one call on a zeroed buffer.",
 ["src/kem.rs", "src/owcpa.rs", "src/packq.rs", "src/pack3.rs", "src/rng.rs"],
 [("no global state; outputs written in full", "src/kem.rs, src/owcpa.rs, src/packq.rs, src/pack3.rs")],
 observe=["outputs of each operation in a history vs. the model / a single-operation run"])

prop("C11", "The built-in generator is exactly the NIST AES-256-CTR DRBG",
 "For every seed, every generator state and every sequence of requests of any lengths (zero, not a multiple of 16, very long), the bytes delivered and the state left behind (key, counter block, call counter) are those of the NIST reference AES-256-CTR DRBG, including the carry of the 128-bit big-endian counter across all byte positions and its wrap-around.",
 ["inputs", "histories"], "all 48-byte seeds, all states, all request sequences",
 "One seed and two 256-byte requests are tested; no partial blocks, no counter carries beyond the low bytes, no other lengths.",
 ["src/rng.rs"],
 [("randombytes / randombytes_init", "src/rng.rs"), ("aes256_ctr_update", "src/rng.rs")],
 state=[("AesState.key, v, reseed_counter", "DRBG working state", "src/rng.rs")],
 observe=["delivered bytes", "public state fields"])

prop("C12", "Reseeding erases history; clones and equal states evolve identically",
 "After reseeding, a generator's state and all its future output depend on the seed only, whatever happened before. A clone has the same state as its original and from then on both evolve independently and, given the same requests, identically; two generators compare equal exactly when their key, counter block and call counter are equal; a fresh generator is the all-zero state.",
 ["histories", "inputs"], "all histories of seed / request / clone / compare operations over several generators",
 "No test reseeds, clones or compares a generator.",
 ["src/rng.rs"],
 [("randombytes_init", "src/rng.rs"), ("derived Clone and PartialEq, Default", "src/rng.rs")],
 observe=["outputs, equality and state of each generator in the history"])

prop("C13", "A failing random number generator always surfaces as that error",
 "If any RNG request made by key generation or encapsulation fails, the operation returns exactly the RNG's error to the caller - it never reports success, never panics, never makes up randomness - and encapsulation then leaves ciphertext and shared-key buffers untouched. Operations whose requests all succeed are unaffected by earlier failures.",
 ["fault_sequences", "histories"], "every failing request position of every operation, partially filled request buffers, all patterns of failures over a sequence of operations",
 "The unit tests only use a generator that cannot fail.",
 ["src/kem.rs", "src/rng.rs"],
 [("`?` on every randombytes call before use of the buffer", "src/kem.rs")],
 observe=["Result of the operation", "output buffers", "number of RNG requests"])

prop("C14", "Control flow and memory addresses do not depend on secrets",
 "For each variant, the sequence of executed branches and of memory addresses read and written by key generation, encapsulation, decapsulation and the generator is the same for all RNG outputs, secret keys and seeds; decapsulation in particular follows the same path for valid and for invalid ciphertexts (constant time on the software instruction level). This is meant of the code as written: branches that appear only because an optimising compiler introduces them are not counted.",
 ["inputs", "configurations"], "all secrets (RNG bytes, secret keys, seeds) and all ciphertexts, for fixed lengths, all four variants",
 "Functional tests cannot observe control flow or addresses at all.",
 ["src/kem.rs", "src/owcpa.rs", "src/cmov.rs", "src/sample.rs", "src/crypto_sort_int32.rs", "src/poly_s3_inv.rs", "src/poly_r2_inv.rs", "src/poly_mod.rs", "src/rng.rs"],
 [("mask arithmetic instead of branches", "src/cmov.rs, src/crypto_sort_int32.rs, src/poly_mod.rs, src/poly_s3_inv.rs, src/poly_r2_inv.rs"), ("checks accumulated with | and applied at the end", "src/owcpa.rs, src/kem.rs")],
 observe=["edge trace, load-address trace and store-address trace (SanitizerCoverage callbacks) of builds with and without optimisation; valgrind's definedness tracking"])

prop("C15", "Exactly one variant is selectable, each with its documented sizes and name",
 "For every combination of variant features the crate builds if and only if at most one variant is selected, with no selection meaning ntruhps2048509. Each build reports the selected variant's name and the NTRU round-3 sizes of public key, secret key, ciphertext and shared key, which are the sizes the operations really fill.",
 ["configurations"], "all 16 subsets of the four variant features",
 "Tests are run in four of the sixteen configurations and never look at the exported constants.",
 ["build.rs", "Cargo.toml", "src/api.rs", "src/params.rs", "src/lib.rs"],
 [("feature exclusivity and default", "build.rs"), ("exported constants", "src/api.rs"), ("derived sizes", "src/params.rs")],
 observe=["success of the build", "exported constants", "bytes written by the operations"])

prop("C16", "KAT files: generated ones are the reference ones; altered ones are rejected",
 "For each variant, the known-answer tool writes request and response files that consist of the 100 reference records (seed, keys, ciphertext, shared key) and accepts its own response file. It reports failure for every response file in which the seed, public key, secret key, ciphertext or shared key of any record has been altered, or which has been cut off before the last record is complete.",
 ["inputs", "configurations", "fault_sequences"], "all single-field alterations of all 100 records, all truncation points, all four variants",
 "No test runs the known-answer tool or compares more than one record.",
 ["examples/katkem.rs", "src/kem.rs", "src/rng.rs"],
 [("create_request_file, create_response_file, verify", "examples/katkem.rs")],
 observe=["file contents", "exit status of the tool"])

prop("C17", "Encodings of keys and ciphertexts are canonical and lossless",
 "Every public key, ciphertext and secret key produced is in canonical form: log2(q)-bit little-endian coefficients, five base-3 digits per byte, unused bits zero. Decoding loses nothing: every coefficient value of a public key, in every position, takes part in encapsulation unchanged modulo q, the implied last coefficient makes the sum zero, unused bits of a public key are ignored, and every digit of f and of its inverse and every coefficient of the inverse public key in a secret key is read back as it was written.",
 ["inputs", "configurations"], "all polynomials in all positions, all four packings",
 "One test packs the constant polynomial 7; unpacking is never tested on its own, nor with values that differ between positions.",
 ["src/packq.rs", "src/pack3.rs", "src/params.rs"],
 [("poly_sq_tobytes / poly_sq_frombytes", "src/packq.rs"), ("poly_rq_sum_zero_frombytes", "src/packq.rs"), ("poly_s3_tobytes / poly_s3_frombytes", "src/pack3.rs")],
 observe=["output bytes", "ciphertexts made with chosen r and public key", "shared keys from re-encoded secret keys"])

prop("C18", "Results do not depend on word size or byte order of the platform",
 "For each variant, key generation, encapsulation, decapsulation and the generator deliver the same bytes for the same inputs on 32-bit and 64-bit platforms and on little-endian and big-endian ones.",
 ["configurations", "inputs"], "all inputs of all operations; platforms with 32- and 64-bit usize, little- and big-endian",
 "Tests only run on the development machine (64-bit, little-endian); an expression that depends on usize or on native byte order behaves there as intended.",
 ["src/sample.rs", "src/packq.rs", "src/pack3.rs", "src/crypto_sort_int32.rs", "src/poly_rq_mul.rs", "src/poly_mod.rs", "src/rng.rs", "src/kem.rs"],
 [("30-bit words from bytes", "src/sample.rs"), ("bit packing", "src/packq.rs, src/pack3.rs"), ("fixed-width arithmetic", "src/poly_mod.rs, src/poly_rq_mul.rs")],
 observe=["outputs of builds for x86_64, wasm32 (run by node) and s390x (run by Miri)"])

prop("C19", "Different samples give different results, equal samples equal ones",
 "Encapsulating twice to the same generated public key gives the same ciphertext, and the same shared key, exactly when the random bytes stand for the same pair (r, m). Two key generations give the same secret key exactly when the random bytes stand for the same f and g and carry the same rejection secret; equal f and g always give the same public key. No randomness is lost, none beyond the samples matters.",
 ["inputs"], "all pairs of RNG outputs, in particular neighbouring ones, for all generated keys and all variants",
 "Each test looks at one RNG output; none compares two runs.",
 ["src/sample.rs", "src/sample_iid.rs", "src/kem.rs", "src/owcpa.rs", "src/pack3.rs", "src/packq.rs"],
 [("sample_fg, sample_rm", "src/sample.rs"), ("rejection secret appended to the secret key", "src/kem.rs"), ("hash of the packed (r, m)", "src/kem.rs, src/pack3.rs")],
 observe=["keys, ciphertexts and shared keys of pairs of runs"])

prop("C20", "Memory is only accessed in bounds and after initialisation",
 "No operation, on any input, reads or writes outside the buffers it was given and the objects it created, or lets its behaviour or its outputs depend on memory that was never written; on success every byte of every output buffer has been written.",
 ["inputs", "configurations"], "all inputs of all operations, all variants; caller's buffers anywhere in memory, with any previous contents",
 "A stray read does not change a result, and tests use zeroed buffers.",
 ["src/kem.rs", "src/owcpa.rs", "src/packq.rs", "src/pack3.rs", "src/sample.rs", "src/crypto_sort_int32.rs", "src/cmov.rs", "src/rng.rs"],
 [("bounds-checked indexing, no unsafe code", "src/*.rs"), ("every output byte assigned", "src/packq.rs, src/pack3.rs, src/kem.rs")],
 observe=["reports of AddressSanitizer and of valgrind with exactly-sized heap buffers, undefined before the call"])

prop("C21", "A printed generator state can be read back exactly",
 "For every generator state, the texts produced by Display and Debug, plain and alternate, show the whole key, the whole counter block and the call counter, as decimal numbers after the field names key, v and reseed_counter, so that the state can be read back from the text without loss. Printing does not change the generator, and the same state is always printed in the same way. If the stream that is written to reports an error, printing reports an error, and only then.",
 ["inputs"], "all states of the generator",
 "No test prints a generator.",
 ["src/rng.rs"],
 [("impl Display, derived Debug", "src/rng.rs")],
 state=[("AesState.key, v, reseed_counter", "DRBG working state", "src/rng.rs")],
 observe=["formatted text", "public state fields"])

prop("C22", "Operations use bounded stack and heap and leave nothing allocated",
 "In optimised builds, with or without arithmetic checks, no operation on any input uses more than 128 KiB of stack or has more than 1 MiB of heap in use at a time; in particular this does not grow with the length of a generator request. When an operation has returned, with success or with the RNG's error, the heap memory it allocated has been given back: repeating an operation never leaves more memory allocated than before, and any number of different operations leaves at most a small fixed amount (64 KiB).",
 ["inputs", "histories", "configurations"], "all inputs of all operations, failing RNGs included; sequences of different operations; request lengths up to 8 MiB; four variants x two build profiles",
 "Tests look at results only.",
 ["src/kem.rs", "src/owcpa.rs", "src/rng.rs", "src/poly.rs", "src/crypto_sort_int32.rs"],
 [("crypto_kem_keypair", "src/kem.rs"), ("crypto_kem_enc", "src/kem.rs"), ("crypto_kem_dec", "src/kem.rs"), ("AesState::randombytes", "src/rng.rs")],
 observe=["bytes allocated by the operating thread", "stack depth"])

prop("C23", "Operations use only their arguments: no files, output, clock or environment",
 "No operation - key generation, encapsulation, decapsulation, reseeding, requesting bytes, creating, copying, comparing, formatting or dropping a generator - calls on the operating system for anything but memory and locks, whatever its input and whether it succeeds or not: it reads or writes no file, prints nothing to standard output or error, starts no thread or process, does not look at the clock or at environment variables, opens no connection and takes no random numbers from the system. In particular an invalid ciphertext or a failing RNG leaves no trace.",
 ["inputs", "histories", "configurations"], "all inputs of all operations, invalid ciphertexts and failing RNGs included; four variants x two build profiles",
 "Tests look at results only.",
 ["src/kem.rs", "src/owcpa.rs", "src/rng.rs", "src/sample.rs"],
 [("crypto_kem_keypair", "src/kem.rs"), ("crypto_kem_enc", "src/kem.rs"), ("crypto_kem_dec", "src/kem.rs"), ("AesState::randombytes", "src/rng.rs"), ("AesState::randombytes_init", "src/rng.rs")],
 observe=["calls of the C library's functions that reach the system"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
