"""Factorization and nearly square rectangles judged by FactorTrace.tla."""
import random

import image_common as I


def small(n):
    out, d = [], 2
    while d * d <= n:
        while n % d == 0:
            out.append(d)
            n //= d
        d += 1
    return out + [n] * (n > 1)


def run(ck):
    from ebsdtorch.utils.factorize import FactorECM, nearly_square_factors

    rng = ck.rng
    top = 2500 if ck.quick else 20000
    carmichael = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 62745, 63973, 75361, 101101, 115921, 126217, 162401, 172081, 188461, 252601, 278545, 294409, 314821, 334153, 340561, 399001, 410041, 449065, 488881, 512461, 825265, 1193221, 56052361, 118901521, 172947529, 216821881, 228842209, 321197185]
    squares = [p * p for p in (257, 263, 1009, 4099, 10007, 32771, 46337)] + [p ** 3 for p in (41, 43, 257, 1021)] + [p ** 4 for p in (17, 43, 211)] + [p ** 5 for p in (11, 73)]
    powers = [m * 2 ** k for k in range(1, 29) for m in (1, 3, 5, 7)]
    edges = [65535, 65536, 65537, 65539, 2 ** 31 - 1, 2 ** 31 - 19, 46337 * 46327, 2 ** 30, 510510, 9699690, 223092870]
    rand = [rng.randrange(2, 1 << b) for b in range(8, 31) for _ in range(6 if ck.quick else 120)]
    ns = list(range(1, top)) + carmichael + squares + powers + edges + rand
    recs, sq = [], []
    random.seed(ck.seed)
    for n in ns:
        with ck.guard("factorization", {"n": n}, 60):
            f = FactorECM(n)
            recs.append(dict(op="factor", n=n, got=[int(v) for v in f if v < 2 ** 31]))
            ck.expect(all(1 < v < 2 ** 31 for v in f), "factors are divisors", {"n": n, "got": [str(v) for v in f]})
        with ck.guard("nearly square factors", {"n": n}, 60):
            a, b = nearly_square_factors(n)
            ok = 0 < a < 2 ** 31 and 0 < b < 2 ** 31
            ck.expect(ok, "sides are divisors", {"n": n, "got": [str(a), str(b)]})
            if ok:
                sq.append(dict(op="square", n=n, primes=small(n), got=[int(a), int(b)]))
        ck.trace()
    # products beyond 32 bits
    primes = [p for p in range(2, 300) if small(p) == [p]] + [1009, 10007, 65537, 65539, 100003, 1000003, 2000003, 10000019, 100000007, 998244353, 2147483647]
    for q in range(60 if ck.quick else 1500):
        k = rng.randrange(2, 7)
        f = sorted(rng.choice(primes[: -5] if i > 1 else primes) for i in range(k))
        n = 1
        for v in f:
            n *= v
        with ck.guard("factorization of large numbers", {"primes": f}, 120):
            recs.append(dict(op="large", primes=f, got=[int(v) if v < 2 ** 31 else 0 for v in FactorECM(n)]))
            a, b = nearly_square_factors(n)
            ck.expect(a * b == n, "the sides of the rectangle multiply to the number", {"primes": f})
        ck.trace()
    with ck.guard("nearly square factors", {"n": 0}, 20):
        a, b = nearly_square_factors(0)
        ck.expect(a * b == 0 and a >= 0 and b >= 0, "an empty rectangle for zero", [a, b])
    ck.sample({"numbers": len(ns)})
    I.judge(ck, recs + sq, "FactorTrace")
