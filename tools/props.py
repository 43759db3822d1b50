"""How each property's monitors are run, and what they claim."""
import re

COMMON = [
    "x86-64 only: the aarch64 code cannot be built or run in this sandbox",
    "CPU paths are selected with the library's own debug toggles; a path whose features this machine lacks is not exercised",
]


def default_runner(c, res, prop, scratch):
    b = c.build("harness", "gv")
    c.run_jobs(res, b, prop, scratch)
    return None


NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
FLAGS = '--cfg getrandom_backend="custom"'
ASAN_ENV = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:symbolize=1"}
VALGRIND = ["valgrind", "-q", "--error-exitcode=9", "--num-callers=25", "--undef-value-errors=yes"]


def build_asan(c):
    return c.build("harness", "asan", rustflags=FLAGS + " -Zsanitizer=address", env={"RUSTUP_TOOLCHAIN": NIGHTLY}, triple=TRIPLE)


def build_vg(c):
    return c.build("harness", "gv", args=["--profile", "vg"], profile_dir="vg", env={"VALGRIND_BUG_494162": "1"})


def build_ct(c):
    return c.build("harness", "ct", rustflags=FLAGS + " --cfg verif_ctgrind", args=["--profile", "ct"], profile_dir="ct", env={"VALGRIND_BUG_494162": "1"})


def run_many(c, tasks):
    """(function, args, kwargs) tasks on all processors"""
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(max_workers=c.NCPU) as ex:
        for f in [ex.submit(fn, *a, **k) for fn, a, k in tasks]:
            f.result()


def runner_c18(c, res, prop, scratch):
    b, a, v = c.build("harness", "gv"), build_asan(c), build_vg(c)
    tasks = []
    for i in range(4):
        for cfg in ("min", "noavx512"):
            if cfg == "min" or i < 2:
                tasks.append((c.run_job, (res, v, prop, "heap", cfg, i, 4, scratch), dict(wrapper=VALGRIND, label="memcheck-", fail_exit={9: "memcheck"})))
    for i in range(2):
        tasks.append((c.run_job, (res, a, prop, "asan", "native", i, 2, scratch), dict(extra_env=ASAN_ENV, label="asan-")))
    tasks.append((c.run_job, (res, a, prop, "asan", "min", 2, 3, scratch), dict(extra_env=ASAN_ENV, label="asan-")))
    run_many(c, tasks)
    c.run_jobs(res, b, prop, scratch)
    return {"sanitizers": ["AddressSanitizer (nightly, heap/stack/use-after-return)", "valgrind memcheck (addressability, undefined values)", "guard pages and canaries"]}


def runner_c20(c, res, prop, scratch):
    import subprocess
    b = c.build("harness", "gv")
    c.build("harness", "gv", args=["--profile", "rel"], profile_dir="rel")
    t = build_ct(c)
    wrap = ["valgrind", "-q", "--num-callers=14"]
    th = c.TIER == "thorough"
    tasks = []
    for sec, n in (("taint-rsa", 8 if th else 2), ("taint-public", 4 if th else 1), ("taint-sym", 2 if th else 1)):
        for i in range(n):
            tasks.append((c.run_job, (res, t, prop, sec, "native", i, n, scratch), dict(wrapper=wrap, attach_err=True)))
    jobs = [l.split() for l in subprocess.run([b, "jobs", prop], env=c.base_env(), stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines() if l.strip()]
    for s, cfg, i, n in jobs:
        tasks.append((c.run_job, (res, b, prop, s, cfg, int(i), int(n), scratch), {}))
    run_many(c, tasks)
    return {"monitors": ["valgrind memcheck with secrets marked undefined (library annotations via cfg verif_ctgrind)", "single-step instruction and address traces compared between secrets"]}


TSAN_ENV = {"TSAN_OPTIONS": "halt_on_error=0 exitcode=66 history_size=4 second_deadlock_stack=1"}
TSAN_FLAGS = FLAGS + " -Zsanitizer=thread"


def build_tsan(c):
    # the standard library is built instrumented too, so that its locks and atomics are understood
    return c.build("harness", "tsan", rustflags=TSAN_FLAGS, args=["-Zbuild-std"], env={"RUSTUP_TOOLCHAIN": NIGHTLY}, triple=TRIPLE)


def runner_c23(c, res, prop, scratch):
    b = c.build("harness", "gv")
    c.build("harness", "gv", args=["--profile", "rel"], profile_dir="rel")
    t, v = build_tsan(c), build_ct(c)
    others = []

    def drd(i):
        # judged on accesses made by the assembly alone: what synchronises Rust code is
        # ThreadSanitizer's to understand
        _, err, _ = c.run_job(res, v, prop, "drd", "native", i, 8, scratch, wrapper=["valgrind", "--tool=drd", "-q", "--fair-sched=yes", "--num-callers=20", "--fullpath-after=/repo/"], label="drd-")
        for rep in re.split(r"(?=Conflicting (?:load|store) by)", err)[1:]:
            m = re.search(r" at 0x[0-9A-F]+: (.*)", rep)
            if m and "graviola/src/low/x86_64/" in m[1] and not re.search(r"/(cpu|\w*_mux|mod)\.rs", m[1]):
                with res.lock:
                    res.fails.append(("data race (DRD)", f"[drd] {rep[:2500]}", f"valgrind --tool=drd {v} worker {prop} drd native {i} 8"))
                return
            others.append(m[1][:200] if m else rep[:200])
    run_many(c, [(drd, (i,), {}) for i in range(8)])
    if others:
        res.notes["DRD reports not judged (not in assembly)"] = "; ".join(sorted(set(others))[:10])
    # these want all processors to themselves
    for cfg in ("native", "min"):
        for sec in ("tsan", "first-tool"):
            c.run_job(res, t, prop, sec, cfg, 0, 1, scratch, extra_env=TSAN_ENV, label="tsan-", fail_exit={66: "data race (ThreadSanitizer)"})
    c.run_jobs(res, b, prop, scratch, par=1)
    return {"monitors": ["ThreadSanitizer with instrumented std", "valgrind DRD (sees the assembly too)", "results of logged concurrent calls against the same calls made alone"]}


OPTIONAL = ["vaes", "vpclmulqdq", "avx512f", "avx512bw", "avx512vl", "sha", "bmi2"]
MANDATORY = ["aes", "pclmulqdq", "bmi1", "adx", "avx2"]
# these work on any processor; the rest must refuse without a mandatory feature
ANY_CPU = ("sha2", "sha3", "hmac", "ct-equal", "random")


def runner_c21(c, res, prop, scratch):
    import os
    b = c.build("harness", "gv")
    c.build("harness", "gv", args=["--profile", "rel"], profile_dir="rel")
    th = c.TIER == "thorough"

    def env(off):
        return {"GRAVIOLA_CPU_DISABLE_" + f: "1" for f in off}

    sets = [[f for i, f in enumerate(OPTIONAL) if m >> i & 1] for m in range(128)]
    tasks, scripts = [], {}

    def digest(label, cfg, off):
        t = os.path.join(scratch, "transcript-" + label)
        scripts[label] = (t, off)
        tasks.append((c.run_job, (res, b, prop, "digest", cfg, 0, 1, scratch), dict(extra_env={**env(off), "VERIF_TRANSCRIPT": t}, label=label + "-")))

    steps = [(s, off) for off in [[], *[[f] for f in OPTIONAL], OPTIONAL] for s in ("step-sym", "step-public") if th or s == "step-sym" or off in ([], OPTIONAL)]
    for s, off in steps:
        n = 6 if s == "step-public" else 2
        for i in range(n):
            tasks.append((c.run_job, (res, b, prop, s, "native", i, n, scratch), dict(extra_env=env(off), label="-".join(["no", *off]) + "-")))
    digest("rel", "rel", [])
    for off in sets:
        digest("-".join(["no", *off]), "native", off)
    for f in MANDATORY:
        digest("no-" + f, "native", [f])
    tasks.append((c.run_job, (res, b, prop, "refuse", "native", 0, 1, scratch), {}))
    run_many(c, tasks)

    def load(path):
        try:
            return [l.rstrip("\n").split("\t") for l in open(path, encoding="utf8", errors="replace")]
        except OSError:
            return None
    ref = load(scripts["rel"][0])
    if not ref or any(l[1].startswith("panic") for l in ref):
        bad = next((l for l in ref or [] if l[1].startswith("panic")), None)
        if bad:
            res.fails.append(("panic", f"[digest/rel] {bad}", f"VERIF_SEED={c.SEED} VERIF_TRANSCRIPT=/dev/stdout {b} worker {prop} digest native 0 1"))
        else:
            res.errors.append("no reference transcript")
        return None
    compared, refused = 0, 0
    for label, (path, off) in scripts.items():
        got = load(path)
        replay = " ".join([f"VERIF_SEED={c.SEED} VERIF_TIER={c.TIER} VERIF_TRANSCRIPT=/dev/stdout"] + [f"GRAVIOLA_CPU_DISABLE_{f}=1" for f in off] + [b, "worker", prop, "digest native 0 1"])
        if got is None or len(got) != len(ref):
            res.errors.append(f"transcript {label} incomplete")
            continue
        need = off and off[0] in MANDATORY
        for g, r in zip(got, ref):
            compared += 1
            if need and g[1].startswith("panic") and "requires" in g[1]:
                refused += 1
                continue
            if need and not g[0].startswith(tuple(o + " " for o in ANY_CPU)):
                res.fails.append(("not refused", f"without {off[0]}: {g[0]} gave {g[1]}", replay))
                break
            if g[1] != r[1] and g[0].split(" ")[:2] == r[0].split(" ")[:2]:
                res.fails.append(("differs", f"with {off} absent: {g[0]} gave {g[1]}, with all features {r[0]} gave {r[1]}", replay))
                break
    return {"feature_sets": len(sets), "mandatory_features_denied": MANDATORY, "results_compared": compared, "operations_refused": refused}


def build_tls(c):
    c.build("tls", "tls", args=["--profile", "rel"], profile_dir="rel", bin="gvtls")
    return c.build("tls", "tls", bin="gvtls")


def runner_tls(c, res, prop, scratch):
    import subprocess
    b = build_tls(c)
    r = subprocess.run([b, "jobs", prop], env=c.base_env(), stdout=subprocess.PIPE, text=True, check=True)
    run_many(c, [(c.run_job, (res, b, prop, s, cfg, int(i), int(n), scratch), {}) for s, cfg, i, n in (l.split() for l in r.stdout.splitlines())])
    return None


PROPS = {
    "C01": dict(
        level="exploration",
        technique="differential runtime monitor against an independent AEAD implementation",
        rule="each case is one (algorithm, key, nonce, AAD, plaintext, alignment) encrypted and decrypted by the library and compared byte for byte with RustCrypto; distinct = different description hash; non-trivial = the oracle comparison was made",
        assumptions=COMMON + ["RustCrypto aes-gcm / chacha20poly1305 as the specification oracle", "messages up to 1 GiB"],
        note="Every comparison is exact; reach is the explored lengths, alignments, counter carries up to 2^24 blocks, steered Poly1305 accumulators, and CPU paths. Trusts the RustCrypto oracle.",
    ),
    "C02": dict(
        level="exploration",
        technique="runtime forgery monitor: systematic alteration of sealed messages, result and buffer checked",
        rule="each case is one alteration of a genuine sealed message (made by an independent implementation) offered to decryption; distinct = different description hash",
        assumptions=COMMON + ["an accepted random forgery has probability 2^-128"],
        note="All tag bits, tag byte pairs, lengths, one bit per ciphertext byte for ~130 lengths and both CPU paths are altered; acceptance or leftover plaintext is a violation.",
    ),
    "C03": dict(
        level="exploration",
        technique="differential runtime monitor over chunkings, clone trees and squeeze patterns",
        rule="each case is one message with one partition into updates (or one clone/update/finish history, or one read pattern) whose digest is compared with RustCrypto sha2/sha3; distinct = different description hash",
        assumptions=COMMON + ["RustCrypto sha2 / sha3 as the FIPS 180-4 / 202 oracle", "message lengths up to 4 GiB + 100"],
        note="All lengths to 1100 bytes, all two-way splits to 300 bytes, random partitions, clone trees and messages beyond 2^32 bytes, on each CPU path. Trusts the RustCrypto oracle.",
    ),
    "C04": dict(
        level="exploration",
        technique="differential runtime monitor plus near-miss tag enumeration",
        rule="each case is one (hash, key, message partition) MAC comparison, or one candidate tag given to verification; distinct = different description hash",
        assumptions=COMMON + ["RustCrypto hmac as the RFC 2104 oracle"],
        note="All key lengths to 420 bytes; every bit flip, length, byte pair of the tag is offered to verification.",
    ),
    "C05": dict(
        level="exploration",
        technique="differential runtime monitor against an independent big-integer curve implementation",
        rule="each case is one (private scalar, peer point, encoding) operation whose public key, shared secret or refusal is compared with affine arithmetic on big integers; distinct = different description hash",
        assumptions=COMMON + ["the reference curve arithmetic in harness/src/ecref.rs (itself cross-checked against RustCrypto p256/p384)"],
        note="Edge scalars, table-boundary scalars, edge points and random pairs on both curves; every comparison is exact.",
    ),
    "C08": dict(
        level="exploration",
        technique="runtime monitor: verification verdicts compared with an independent verifier over constructed edge signatures",
        rule="each case is one (key, message, signature encoding) verdict compared with the reference verifier; distinct = different description hash",
        assumptions=COMMON + ["the reference verifier in harness/src/ecref.rs"],
        note="Signatures are constructed backwards from chosen u1, u2, R so that exceptional additions, reduced-x and boundary r/s values occur; every DER mutation class is offered.",
    ),
    "C09": dict(
        level="exploration",
        technique="runtime monitor: signatures compared with a model of the nonce derivation under a scripted entropy source; trace check of nonce uniqueness",
        rule="each case is one signature produced under a known entropy stream, verified independently and compared with the model; distinct = different description hash",
        assumptions=COMMON + ["the reference implementation in harness/src/ecref.rs"],
        note="Entropy is constant, repeated or random so that a lost dependence of the nonce on key, message or entropy shows up.",
    ),
    "C06": dict(
        level="exploration",
        technique="differential runtime monitor against two independent X25519 implementations",
        rule="each case is one (private key, coordinate) whose shared secret or public key is compared with x25519-dalek and, for a part, with a big-integer RFC 7748 ladder; distinct = different description hash",
        assumptions=COMMON + ["x25519-dalek and the big-integer ladder in harness/src/cv.rs as oracle"],
        note="All small-order, non-canonical and limb-edge coordinates with and without the top bit, edge scalars, results chosen near 0 and p, and random pairs.",
    ),
    "C07": dict(
        level="exploration",
        technique="runtime monitor: acceptance of every offered public key compared with a big-integer membership test",
        rule="each case is one encoding offered to a public-key constructor, whose acceptance is compared with the reference; distinct = different description hash",
        assumptions=COMMON + ["membership test of harness/src/ecref.rs and cv.rs"],
        note="Out-of-range coordinates, one-limb errors, all lengths, form bytes and bit flips; all 4096 values of ML-KEM coefficients; every non-canonical Ed25519 coordinate.",
    ),
    "C10": dict(
        level="exploration",
        technique="differential runtime monitor: signatures byte-compared, verdicts compared with a strict cofactorless reference",
        rule="each case is one signature made, or one (key, message, signature) verdict, compared with the reference; distinct = different description hash",
        assumptions=COMMON + ["curve25519-dalek arithmetic and the big-integer model in harness/src/cv.rs as oracle"],
        note="Torsion components, non-canonical encodings, unreduced S, small-order keys with edge S, all signature bits and lengths.",
    ),
    "C11": dict(
        level="exploration",
        technique="runtime monitor: RSA verification verdicts compared with a big-integer re-encoding verifier over constructed forgeries",
        rule="each case is one (public key, scheme, message, signature) verdict compared with the reference; signatures over altered encodings are built with the private key; distinct = different description hash",
        assumptions=COMMON + ["reference PKCS#1 v1.5 / PSS encodings in harness/src/rsa.rs over num-bigint", "61 fixed keys of 2048-8192 bits, including moduli of odd bit lengths, e=3..2^32-1"],
        note="Every malformed padding class is signed with the real private key and offered, so only the encoding check can refuse it.",
    ),
    "C12": dict(
        level="exploration",
        technique="runtime monitor: every produced signature verified independently; PKCS#1 compared exactly; PSS salt traced to the entropy source",
        rule="each case is one signature made with a valid key and checked by the reference; distinct = different description hash",
        assumptions=COMMON + ["reference encodings in harness/src/rsa.rs"],
        note="Keys with p<q, unusual modulus lengths and exponents; entropy stream recorded.",
    ),
    "C13": dict(
        level="fault_enumeration",
        technique="fault injection into key material with an output monitor",
        rule="each case is one fault (bit/word/byte corruption of a private-key component in DER or live memory, or of scalar/point state) followed by an operation; anything emitted must be correct; distinct = different description hash",
        assumptions=COMMON + ["faults are data corruptions of stored key state, not of instruction execution"],
        note="A signature that leaves the library despite a fault must verify; an incorrect one is a violation.",
    ),
    "C14": dict(
        level="exploration",
        technique="runtime monitor of generated keys under scripted entropy",
        rule="each case is one key generated under a scripted entropy stream, whose components are checked with big integers; distinct = different key",
        assumptions=COMMON + ["probabilistic primality checks of harness/src/rsa.rs"],
        note="Sizes 2048-4096 in the quick tier, 6144/8192 in the thorough tier; hostile entropy and planted composites.",
    ),
    "C15": dict(
        level="exploration",
        technique="differential runtime monitor against an independent FIPS 203 implementation; implicit-rejection trace check",
        rule="each case is one key generation, encapsulation or decapsulation under a known seed, compared byte for byte with the ml-kem crate (or with J(z||c) for altered ciphertexts); distinct = different description hash",
        assumptions=COMMON + ["RustCrypto ml-kem as the FIPS 203 oracle, sha3 for J", "decryption failures (2^-164) are not reachable"],
        note="Random and structured seeds, crafted encapsulation keys with extreme coefficients, every single-bit change of a ciphertext, cancelling pair changes, and the scripted entropy source.",
    ),
    "C16": dict(
        level="exploration",
        technique="runtime monitor: every accepted or refused encoding judged by an independent strict-DER reader; exported encodings read back by independent decoders; round trips",
        rule="each case is one export (checked byte-structurally and read back by RustCrypto decoders), one buffer size, or one valid/mutated/mismatched encoding offered to a decoder and judged by a reference reader; distinct = different description hash",
        assumptions=COMMON + ["the harness's DER reader and RustCrypto's pkcs8/sec1/spki/pkcs1 as format oracles", "where a standard leaves latitude (optional fields, BER-only length forms excluded) either answer is accepted, but an accepted key must be the key encoded"],
        note="EC P-256/P-384 (SEC1, PKCS#8, SPKI), Ed25519 (PKCS#8 v1/v2, SPKI) and RSA (PKCS#1, PKCS#8, SPKI): every tree-structured mutation of genuine encodings, algorithm/curve/version/public-key mismatches, negative integers, all output buffer sizes.",
    ),
    "C17": dict(
        level="exploration",
        technique="runtime crash/hang monitor: panics, signals, guard-page faults, stack bound and per-call CPU time watched while hostile inputs go into every parser and verifier, and accepted keys into every operation",
        rule="each case is one hostile byte string (or RSA component set) offered to every decoder, verifier or opener of its kind, with everything accepted then used in every operation; distinct = different description hash",
        assumptions=COMMON + ["bounded time means under 5 s of CPU per call (the slowest observed takes 0.06 s)", "calls run on a 768 KiB stack", "memory exhaustion by the caller is out of scope"],
        note="Structure-aware DER damage, truncation at every length, random mutation and splicing, hostile RSA private and public components, signatures by the real key over malformed PKCS#1 and PSS encodings, arbitrary signatures, points, scalars, ciphertexts, tags and encapsulation keys, in a checked build (debug assertions, overflow checks) and the optimised build users ship.",
    ),
    "C18": dict(
        level="exploration",
        technique="guard pages and canaries around every operand, AddressSanitizer and valgrind memcheck runs, over all public operations",
        rule="each case is one whole operation (an operation family, its random parameters, and one placement of all its operands: heap, ending at a guard page, starting after one, or between canaries at an offset); its digest must equal the heap run's; distinct = different description hash",
        assumptions=COMMON + ["an over-read that stays inside the library's own stack frame and does not influence an output is not visible (assembly is not instrumented by AddressSanitizer)", "valgrind 3.22 does not implement AVX-512, SHA-NI or ADX detection: those paths are watched by guard pages only", "Miri cannot run inline assembly or AVX intrinsics, so it is not used"],
        note="Every operand (inputs, outputs, key objects) placed against inaccessible pages; canaries and read-only inputs compared after each operation; dead stack and vector registers filled with differing patterns before each run so reads outside the operands change answers; DF/MXCSR/x87 state checked after each.",
        runner=runner_c18,
    ),
    "C19": dict(
        level="exploration",
        technique="memory, freed-heap and vector-register residue monitors over object lifetimes; Debug text comparison",
        rule="each case is one object lifetime with two different secrets whose storage is searched after drop, one operation under an allocator that searches every freed block for the operation's secrets, one pair of calls whose vector registers are compared afterwards, or one Debug rendering; distinct = different description hash",
        assumptions=COMMON + ["temporary copies in dead stack frames are not claimed erased", "secret data means words that differ between two runs with different secrets and are not public values", "a residue of fewer than 8 consecutive secret bytes is not noticed"],
        note="AEAD keys, ECDH/X25519/ML-KEM private keys and shared secrets, ECDSA, Ed25519 and RSA signing keys, used and unused; debug and release builds; all 32 vector registers (512 bits each) captured directly after return.",
    ),
    "C20": dict(
        level="exploration",
        technique="secret-taint monitor (valgrind memcheck over undefined-marked secrets) and single-step trace comparison between secrets",
        rule="each case is one operation on one secret: either run under memcheck with the secret marked undefined (any report fails), or single-stepped natively and its instruction and memory-operand address sequence compared with that of the same operation on other secrets; distinct = different description hash",
        assumptions=COMMON + [
            "timing differences of individual instructions, caches, or speculative execution are not observed",
            "memory addresses are compared by base and index registers; RSA-2048 traces only in the thorough tier (taint in both)",
            "public: message and ciphertext lengths, the outcome of tag/signature/on-curve/range checks, the ML-KEM public seed rho, exported public keys and signatures, RSA key size",
            "valgrind has no AVX-512 or SHA-NI: those code paths are covered by the trace monitor",
        ],
        note="AEADs, HMAC and hashes, X25519, P-256/P-384 ECDH and ECDSA, Ed25519, ML-KEM-768 (including implicit rejection), RSA signing; extreme and random secrets; the optimised build. The monitor first proves to itself that a tainted branch is reported.",
        runner=runner_c20,
    ),
    "C21": dict(
        level="exploration",
        technique="transcript comparison over all 128 optional feature sets, single-step monitor of executed instruction encodings, refusal monitor",
        rule="each case is one operation under one feature set: its result digest compared with the optimised build's using all features, or its executed instructions classified by instruction-set extension, or its refusal without a mandatory feature; distinct = different description hash",
        assumptions=COMMON + [
            "a feature's absence is simulated with the library's own debug toggles (debug_assertions builds); the `avx` check has none",
            "big-number arithmetic uses BMI2 without an alternative and is not judged when only BMI2 is denied (no processor has ADX without BMI2)",
            "hash functions and HMAC need no mandatory feature: they may refuse or must be right",
        ],
        note="All 2^7 subsets of optional features; every executed instruction inside the library is decoded (EVEX width and byte/word forms, VAES, VPCLMULQDQ, SHA, BMI2, and extensions the library never checks) with each single feature denied and with all denied.",
        runner=runner_c21,
    ),
    "C22": dict(
        level="fault_enumeration",
        technique="fault injection into the system random source at every call position, with result, dependence and reuse monitors",
        rule="each case is one operation with the generator failing at one call (once, or from then on), or one drawn byte altered, or one sequence of calls whose draws and results are compared; distinct = different description hash",
        assumptions=COMMON + [
            "the random source is replaced with getrandom's custom-backend interface; a failure is an error return with nothing written",
            "RSA generation makes thousands of calls: the first, last and a random sample of positions fail in the quick tier",
            "RSA generation with a generator that succeeds but returns constant bytes for ever is not covered (it never finds a prime)",
        ],
        note="All key generation (X25519, P-256, P-384, ECDSA, Ed25519, ML-KEM, RSA), ECDSA and PSS signing, ML-KEM encapsulation, random::fill; after a failure the same call must work as if nothing happened; every drawn byte is altered to see that the result depends on it.",
    ),
    "C23": dict(
        level="exploration",
        technique="ThreadSanitizer and DRD over shared-key workloads; offline checker of logged concurrent calls against sequential results; simultaneous first use in fresh processes",
        rule="each case is one round of threads calling operations on shared objects (every call's result compared with the result it gives alone; calls counted as evaluations), or one fresh process whose threads use the library for the first time at the same instant; distinct = different round description",
        assumptions=COMMON + [
            "ThreadSanitizer does not see memory accesses of the assembly; DRD does, without AVX-512 and SHA-NI",
            "interleavings come from 1 to 8 processors, random delays and signals that preempt threads; they are sampled, not enumerated",
        ],
        note="All key types and cloneable contexts shared between threads: AEAD keys, hash and HMAC contexts, X25519/P-256/P-384 private and public keys, ECDSA, Ed25519, RSA and ML-KEM keys, alone and mixed with independent operations.",
        runner=runner_c23,
    ),
    "C24": dict(
        level="exploration",
        technique="online monitor of in-memory TLS connections between providers (both ends' secrets, parameters and data compared), with key-exchange and key-schedule differential monitors",
        rule="each case is one configuration connected three times (full, resumed, resumed), one altered or impostor handshake, one key exchange against another implementation, one malformed share, or one hash/HMAC/HKDF/PRF history; distinct = different description hash",
        assumptions=COMMON + [
            "rustls 0.23 with its ring provider is the independent peer; the peer's X25519MLKEM768 group is made of the ml-kem and x25519-dalek crates",
            "RustCrypto sha2, hmac, p256, p384 and ml-kem and x25519-dalek as oracles",
        ],
        note="The whole table of version, suite, group, certificate type and role (378 configurations) is connected in every run, with resumption by session and by ticket, client certificates, HelloRetryRequest, early data, small fragments, key updates, single-scheme peers, and data in odd sizes; handshakes with one altered bit, and impostors, must fail.",
        runner=runner_tls,
    ),
    "C25": dict(
        level="exploration",
        technique="differential runtime monitor of record encrypters and decrypters against RFC models over an independent AEAD, with systematic alteration of records",
        rule="each case is one record (suite, key, sequence number, type, length, payload shape) made or opened and compared with the model, or one alteration offered; distinct = different description hash",
        assumptions=COMMON + ["RustCrypto aes-gcm / chacha20poly1305 as the AEAD oracle; the record layouts are written from RFC 8446, 5246, 5288 and 7905", "the TLS 1.2 GCM explicit nonce is only required not to repeat"],
        note="All nine suites, sequence numbers up to 2^64-1, lengths 0 to 16640, chunked payloads, all bits of header, nonce, ciphertext and tag altered, replay and reordering, oversized plaintexts.",
        runner=runner_tls,
    ),
    "C26": dict(
        level="exploration",
        technique="offline checker over logged histories of ticket encryption, decryption, rotation and faults, with a controlled clock and random source",
        rule="each case is one state sealed and opened, one altered or foreign ticket, or one history of calls, clock steps and generator failures; distinct = different description hash",
        assumptions=COMMON + ["time is controlled by interposing clock_gettime in the check's own process", "decryption of a ticket made from an empty state is not judged"],
        note="States of 1 byte to 64 kB, all bits and lengths of a ticket altered, tickets of other ticketers, rotation over many lifetimes with a clock that also goes backwards, generator failure at every call, several threads.",
        runner=runner_tls,
    ),
    "C27": dict(
        level="exploration",
        technique="runtime monitor of scheme choice over all offers, and cross-provider signature matrix",
        rule="each case is one offer put to one key, one signature made and checked elsewhere, or one signature put to every verifier with right and wrong keys and alterations; distinct = different description hash",
        assumptions=COMMON + ["RustCrypto rsa, p256, p384 and ed25519-dalek and ring as the other signers and verifiers"],
        note="All key types in all encodings, all subsets of schemes and many orders, all 13 verifiers against all 13 kinds of signature.",
        runner=runner_tls,
    ),
    "C28": dict(
        level="exploration",
        technique="history-independence monitor (each result compared with the one from a fresh process), use-count monitor, counting allocator, and thread/process state monitor around operations",
        rule="each case is one operation with one seed at one step of a random history, one sampled use of an object (all uses are compared; evaluations count them), one operation or altered encoding run with the heap counted, or one operation with thread and process state compared; distinct = different description hash",
        assumptions=COMMON + [
            "a process forked before any use of the library stands for a fresh process",
            "use counts reach 65,536 (about 70,000) for all but the slowest operations, which are used for 3 to 10 s (40 s in the thorough tier)",
        ],
        note="All operations of the library. Histories mix all operations in random order with failing randomness, altered encodings and scribbled stack and heap. Heap monitoring excludes caches that fill once (each operation runs before counting starts).",
    ),
}

HOOKS = {
    "guard": "cfg(verif_ctgrind)",
    "enable": "RUSTFLAGS='--cfg verif_ctgrind' (build_ct in tools/props.py); reports the library's own secret/public annotations to the taint monitor of C20",
    "source_commits": ['ceedc84', '6191d83'],
}
NOT_APPLICABLE = {}
