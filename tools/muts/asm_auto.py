"""Samples the carry-consuming instructions of the x86_64 assembly; each sample loses its carry in."""
import os, random, re
D = "graviola/src/low/x86_64/"
K = int(os.environ.get("ASM_K", "4")); rnd = random.Random(int(os.environ.get("ASM_SEED", "1")))
MAP = {"curve25519_x25519.rs": "C06", "curve25519_x25519base.rs": "C06", "edwards25519_decode.rs": "C10", "edwards25519_scalarmulbase.rs": "C10",
       "edwards25519_scalarmuldouble.rs": "C10", "bignum_madd_n25519.rs": "C10", "bignum_mod_n25519.rs": "C10", "bignum_neg_p25519.rs": "C10",
       "chacha20.rs": "", "aes.rs": "", "bignum_cmp_lt.rs": "", "bignum_mod_n256.rs": "C08 C09", "bignum_mod_n384.rs": "C08 C09",
       "bignum_add_p256.rs": "C07 C05", "bignum_add_p384.rs": "C07 C05", "bignum_modadd.rs": "C09 C08"}
for f in sorted(os.listdir("/repo/" + D)):
    if not f.endswith(".rs"): continue
    p = MAP.get(f)
    if p is None:
        p = "C05 C08" if re.search("256|384", f) else ("C13 C12 C14" if f.startswith("bignum") else "")
    if not p: continue
    s = open("/repo/" + D + f).read()
    sites = [m for m in re.finditer(r'"(\s*)(adc|sbb|adcx)(\s+)(?=[^"]*")', s)]
    for m_ in rnd.sample(sites, min(K, len(sites))):
        old = m_.group(0); op = m_.group(2)
        new = f'"{m_.group(1)}clc\\n{op}{m_.group(3)}'
        nth = len(re.findall("(?=" + re.escape(old) + ")", s[:m_.start()]))
        line = s.count("\n", 0, m_.start()) + 1
        m(f"{f[:-3]}:{line}", p, [(D + f, old, new, nth)])
