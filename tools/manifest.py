#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json

MODEL = ("Trusts harness/refmodel, an independent implementation of the round-3 specification "
         "(schoolbook arithmetic, own SHA3/AES) that is itself tied to the KAT vectors.")
NOTE = {
    "C01": ("proptest round trips with keys and messages built to align decryption noise",
            "Randomised exploration of 12000 RNG outputs per variant (plain and overflow-checked builds), including ones "
            "constructed to push the noise to within a few units of q/2. No model involved: the two sides are compared "
            "with each other. Absence of failures is not proved."),
    "C02": ("differential property testing against a reference model",
            "5000 RNG outputs per variant, fed bytes and built-in generator, both profiles; request sequence and every "
            "output byte compared. " + MODEL),
    "C03": ("differential property testing against a reference model",
            "12000 (public key, RNG output) pairs per variant incl. non-generated and non-canonical public keys; every value in every "
            "coefficient of public key and ciphertext. " + MODEL),
    "C04": ("differential property testing against a reference model, structure-aware ciphertexts",
            "8000 (secret key, ciphertext) pairs per variant; malformed secret keys, ciphertexts built to fail exactly one "
            "of the validity conditions; secret keys forged so that a given ciphertext decrypts to chosen values; every value in "
            "every coefficient of an accepted ciphertext. " + MODEL),
    "C05": ("structure-aware generation of invalid ciphertexts, oracle decides legitimacy by re-encryption",
            "6000 ciphertexts per variant built through the secret key so that only one condition is violated, minimally; every "
            "coefficient of r out of range in turn. "
            + MODEL),
    "C06": ("metamorphic testing over neighbourhoods of ciphertexts",
            "All single-bit flips of several ciphertexts per variant, all values of bytes/coefficients, random flip sets, "
            "varied rejection secrets; keys compared pairwise within each family. No model involved."),
    "C07": ("property testing of the algebraic key equations",
            "12000 generated keys per variant; equations evaluated with independent schoolbook arithmetic, independent of "
            "how the inverse is computed."),
    "C08": ("property testing; secrets recovered from outputs and compared with the RNG bytes",
            "15000 RNG outputs per variant incl. ties, sorted, periodic and extreme 30-bit words. Sampled polynomials are "
            "recovered from public outputs with model arithmetic."),
    "C09": ("fuzzing of all entry points, two build profiles compared",
            "20000 calls per variant with raw, patterned and structured inputs in a release and in an overflow- and "
            "debug-assertion-checked build; panics caught, outputs compared."),
    "C10": ("stateful property testing of histories, plus concurrent replay",
            "1200 histories per variant executed on dirty, reused and misaligned buffers, repeated, run in threads; two processes with 68000 "
            "different operations in either order; disagreement with "
            "the expected value is confirmed against a fresh process. Thread schedules are those the OS gives."),
    "C11": ("differential property testing against a reference DRBG, pinned carry cases",
            "All carry positions of the counter, call counters to 400000, lengths to 3000 and all byte values pinned, 4000 request "
            "histories per variant build. " + MODEL),
    "C12": ("stateful property testing with shadow generators",
            "6000 histories over up to six generators per variant build, every bit of the state pinned; expected effects come from fresh generators."),
    "C13": ("enumeration of RNG fault positions plus random fault histories",
            "Every request index of key generation and encapsulation fails in turn, with partial fills and different "
            "error values of 260 kinds, alone and in histories."),
    "C14": ("differential execution traces (SanitizerCoverage edges, load and store addresses); valgrind with undefined secrets",
            "Traces at opt-level 0, 1 and 3 compared with a reference run for random, degenerate and crafted secrets; some 90 "
            "operations per variant each of the release and the unoptimised build under valgrind, where every executed branch or "
            "address that depends on a secret is reported whatever its value. Branches that only the optimiser introduces are "
            "listed in the evidence, not reported. Instruction latencies are outside."),
    "C15": ("exhaustive enumeration of feature subsets",
            "All 16 subsets built with cargo; builds loaded and their sizes checked by running the operations."),
    "C16": ("mutation fuzzing of KAT files, reference files from the model",
            "Generated files compared with the model's; every field of all 100 records altered once, 330 other altered or cut files per variant must be rejected. " + MODEL),
    "C17": ("property testing of encodings (canonical form, sensitivity of every digit)",
            "10000 cases per variant; each coefficient and digit position is varied and must change the outcome as the "
            "decoded value says; every value in every position; rotated keys. " + MODEL),
    "C18": ("differential testing across platforms: native, wasm32 (node), s390x (Miri)",
            "2000 operations per variant on wasm32 (32-bit). Big-endian: a handful of fixed operations per variant in the "
            "Miri interpreter (one key generation for ntruhps2048509 and ntruhrss701), since it is some 20000 times slower."),
    "C19": ("metamorphic property testing of pairs of runs with nearly equal RNG outputs",
            "6000 families per variant, some 19000 pairs of runs; which pairs must agree is decided by the model's "
            "sampling functions alone."),
    "C20": ("fuzzing of all entry points under AddressSanitizer and valgrind",
            "4000 operations per variant, half misaligned, with AddressSanitizer, 1 in 12 also under valgrind with undefined output buffers. "
            "Accesses that stray into another live object of the same allocation are not seen."),
    "C22": ("property testing of resource use: counting allocator, marked stack",
            "4000 operations per variant in two build profiles, each repeated; 8 rows of 3000 different operations; requests to "
            "8 MiB. Threads an operation might start are not counted."),
    "C21": ("property testing of printing and reading back",
            "20000 states per variant in four formats, every value of every byte, failing output streams; an independent reader "
            "extracts the fields."),
    "C23": ("property testing with counted calls on the operating system",
            "5000 operations per variant in two build profiles; 83 functions of the C library are redirected by the linker and "
            "counted. Direct system calls and reads of environ are not seen."),
}
LEVEL = {"C13": "fault_enumeration"}
m = {
    "version": 1,
    "setup_cmd": "bash /verif/check.sh setup",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"bash /verif/check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash /verif/check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": t,
            "level": LEVEL.get(i, "exploration"),
            "level_note": n,
        }
        for i, (t, n) in NOTE.items()
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the public API with custom RNGs. See DESIGN.md.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
