"""Carmichael numbers (6k+1)(12k+1)(18k+1) of exactly 1024 bits with the top two bits
set, all prime factors large, k odd.  Writes harness/fixtures/carmichael.txt."""
import random, sys, multiprocessing as mp
import sympy
SM = list(sympy.primerange(5, 200000))
def root3(n):
    x = 1 << ((n.bit_length() + 2)//3)
    while True:
        y = (2*x + n//(x*x))//3
        if y >= x: return x
        x = y
def find(seed):
    r = random.Random(seed)
    lo = root3((3 << 1022)//1296) + 1
    hi = root3((1 << 1024)//1296) - 2
    W = 400000
    while True:
        k0 = r.randrange(lo, hi - 2*W) | 1
        ok = bytearray(b"\1")*W        # k = k0 + 2i
        for p in SM:
            i2 = pow(2, -1, p)
            for c in (6, 12, 18):
                k = (-pow(c, -1, p)) % p
                i = (k - k0) * i2 % p
                ok[i::p] = bytes(len(range(i, W, p)))
        for i in range(W):
            if ok[i]:
                k = k0 + 2*i
                if pow(2, 6*k, 6*k+1) == 1 and pow(2, 12*k, 12*k+1) == 1 and pow(2, 18*k, 18*k+1) == 1 and all(sympy.isprime(c*k+1) for c in (6,12,18)):
                    n = (6*k+1)*(12*k+1)*(18*k+1)
                    assert n >> 1022 == 3
                    return n
if __name__ == "__main__":
    with mp.Pool(4) as p:
        out = sorted(p.map(find, [1, 2, 3, 4]))
    open("/verif/harness/fixtures/carmichael.txt", "w").write("".join(f"{n:x}\n" for n in out))
