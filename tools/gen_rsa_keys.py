#!/usr/bin/env python3
"""Generates harness/fixtures/rsa_keys.txt: RSA keys of unusual shapes (test material only).
Deterministic; run once, output committed."""
import random, sys, math
R = random.Random(20261118)
SM = [p for p in range(3, 4000, 2) if all(p % q for q in range(3, int(p**.5) + 1, 2))]
PROD = math.prod(SM)
def is_prime(n):
    if math.gcd(n, PROD) != 1: return False
    if pow(2, n - 1, n) != 1: return False
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for _ in range(8):
        a = R.randrange(2, n - 1)
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def next_prime(x, e, step=2):
    x |= 1
    while not (is_prime(x) and math.gcd(x - 1, e) == 1): x += step
    return x
def rnd(bits, e):
    return next_prime(R.getrandbits(bits) | (1 << (bits - 1)) , e)
def pair(nbits, e, pbits=None):
    """primes with product of exactly nbits"""
    pb = pbits or (nbits + 1) // 2
    while True:
        p = rnd(pb, e)
        lo, hi = ((1 << (nbits - 1)) + p - 1) // p, ((1 << nbits) - 1) // p
        q = next_prime(R.randrange(lo, hi), e)
        if p != q and (p * q).bit_length() == nbits:
            return max(p, q), min(p, q)
out = []
def emit(name, p, q, e):
    n = p * q
    d = pow(e, -1, math.lcm(p - 1, q - 1))
    print(name, n.bit_length(), file=sys.stderr, flush=True)
    out.append(f"{name} {p:x} {q:x} {e:x} {d:x}")
F4 = 65537
for bits in [2048, 2048, 2041, 2044, 2047, 2049, 2050, 2052, 2055, 2056, 2057, 2064, 2080, 2104, 2112, 2176, 2240, 2304, 2432, 2560, 2816]:
    p, q = pair(bits, F4); emit(f"n{bits}", p, q, F4)
for bits in [3072, 3073, 3084, 3136, 3584, 4032, 4096, 4104, 5120, 6144, 7168, 8184]:
    p, q = pair(bits, F4); emit(f"n{bits}", p, q, F4)
p, q = pair(8192, F4); emit("n8192", p, q, F4)
for e in [3, 5, 17, 257, 0x10003, 0x7fffffff, 0x80000001, 0xfffffffb, 0xffffffff]:
    p, q = pair(2048, e); emit(f"e{e:x}", p, q, e)
# p < q order
p, q = pair(2048, F4); emit("plessq2048", q, p, F4)
p, q = pair(3072, F4); emit("plessq3072", q, p, F4)
p, q = pair(2048, 3); emit("plessq2048e3", q, p, 3)
# limb-edge primes
def shaped(bits, val): return next_prime(val, F4)
T = 1 << 1024
emit("highones", shaped(1024, T - (1 << 500)), shaped(1024, T - (1 << 700)), F4)
emit("highones2", shaped(1024, T - (1 << 64)), shaped(1024, T - (1 << 960)), F4)
emit("lowones", shaped(1024, (3 << 1022) + (1 << 512)), shaped(1024, (3 << 1022) + (1 << 64)), F4)
emit("sqrt2", shaped(1024, math.isqrt(1 << 2047) + 1 + (1 << 200)), shaped(1024, math.isqrt(1 << 2047) + 1), F4)
x = sum((0xffffffffffffffff if i % 2 else 0) << (64 * i) for i in range(16))
emit("altlimbs", shaped(1024, x), shaped(1024, (x >> 64) | (0xc000000000000000 << 960)), F4)
T3 = 1 << 1536
emit("highones3072", shaped(1536, T3 - (1 << 100)), shaped(1536, T3 - (1 << 900)), F4)
T4 = 1 << 2048
emit("highones4096", shaped(2048, T4 - (1 << 100)), shaped(2048, T4 - (1 << 1900)), F4)
emit("close", *(lambda a: (next_prime(a + 2, F4), a))(shaped(1024, (5 << 1021) + R.getrandbits(1000))), F4)
# unbalanced
for pb, nb in [(1040, 2048), (1088, 2048), (1200, 2048), (1500, 2048), (1024, 2040 + 8), (2000, 3072), (1900, 2048)]:
    p, q = pair(nb, F4, pb); emit(f"unbal{pb}of{nb}", p, q, F4)
open(sys.argv[1], "w").write("\n".join(out) + "\n")
