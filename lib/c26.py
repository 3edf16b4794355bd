"""C26: number theory on big integers."""
import vt
from mpigen import Prog, num, small, mag, hx

P = [3, 5, 7, 11, 13, 101, 257, 65537, (1 << 31) - 1, (1 << 61) - 1, (1 << 64) - 59, (1 << 64) + 13, (1 << 89) - 1, (1 << 107) - 1,
     (1 << 127) - 1, (1 << 130) - 5, (1 << 255) - 19, (1 << 256) - (1 << 32) - 977, (1 << 521) - 1, (1 << 224) - (1 << 96) + 1,
     (1 << 256) - (1 << 224) + (1 << 192) + (1 << 96) - 1, 115792089237316195423570985008687907852837564279074904382605163141518161494337,
     (1 << 32) - 5, (1 << 32) + 15, (1 << 33) - 9, 17, 97, 193, 12289, 40961, 3 * (1 << 30) + 1, (1 << 64) - (1 << 32) + 1]
# strong pseudoprimes to base 2, extra strong Lucas pseudoprimes, Carmichael numbers, squares of primes, products of twins
PSEUDO = [2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751,
          3215031751, 3825123056546413051, 318665857834031151167461, 3317044064679887385961981,
          989, 3239, 5777, 10877, 27971, 29681, 30739, 31631, 39059, 72389, 73919, 75077, 100127, 113573, 125249, 137549, 137801, 153931,
          561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 1194649, 12327121, 9, 25, 49, 121, 169, 1093 ** 2, 3511 ** 2,
          341550071728321, 4759123141, 1122004669633, 2152302898747, 3474749660383]


def isprime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def prime(r, bits):
    while True:
        n = r.getrandbits(bits) | 1 | 1 << bits - 1
        if bits < 3:
            return 3
        if isprime(n):
            return n


def step(p, r, cap, primes):
    z, x, y, q = (p.reg() for _ in range(4))
    if r.random() < .25:
        y = x
    if r.random() < .3:
        z = r.choice((x, y))
    B = p.bits
    sg = lambda: r.choice((1, 1, -1))
    for i in range(6):
        p.limit(i, cap)
    k = r.choices(('gcd', 'gcdext', 'invert', 'powm', 'sqrt', 'root', 'sym', 'sqrtm', 'sqrtpq', 'comb', 'pow', 'perfect', 'remove', 'gcdui'),
                  (8, 14, 12, 12, 8, 8, 12, 8, 4, 6, 4, 5, 4, 5))[0]
    u = small(r, p.w)
    if k == 'gcd':
        if r.random() < .7:
            g = num(r, 3)
            a, b = num(r, 3), num(r, 3)
            if r.random() < .3:
                b = a + r.choice((0, 1))
            p.set(x, g * a * sg())
            if x != y:
                p.set(y, g * b * sg())
        f = r.choice(('gcd', 'gcd', 'lcm'))
        p.add('mz_zxy', f, z, x, y)
        p.out(z, B[x] + B[y])
    elif k == 'gcdui':
        p.set(x, r.choice((0, 1, u, u * num(r, 2), num(r, 4))) * sg())
        f = r.choice(('gcd_ui', 'lcm_ui', 'p'))
        if f == 'p':
            p.add('mz_pxu', 'gcd_ui', x, hx(u))
        else:
            p.add('mz_zxu', f, z, x, hx(u))
            p.out(z, B[x] + 64)
    elif k == 'gcdext':
        t = r.random()
        if t < .6:
            g = r.choice((1, 2, 4, 1 << r.randrange(80), num(r, 3) or 1))
            a, b = num(r, 3), num(r, 3)
            if r.random() < .3:
                b = a * r.choice((0, 1, 2, num(r, 1)))
            p.set(x, g * a * sg())
            if x != y:
                p.set(y, g * b * sg())
        outs = r.sample(range(6), 3)
        if r.random() < .6:             # outputs over inputs
            o = r.choice(((x, y), (y, x), (x,), (y,)))
            for i, v in zip(r.sample(range(3), len(o)), o):
                outs[i] = v
            outs = outs if len(set(outs)) == 3 else r.sample(range(6), 3)
        outs = [-1 if r.random() < .15 else o for o in outs]
        p.add('mz_gcdext', outs[0], outs[1], outs[2], x, y)
        for o in outs:
            if o >= 0:
                p.out(o, max(B[x], B[y]) + 1)
    elif k == 'invert':
        t = r.random()
        m = r.choice(P) if t < .4 else num(r, 4)
        if t > .9:
            m = r.choice((0, 1, 2, 4, 1 << r.randrange(200)))
        v = r.choice((0, 1, m - 1, m, m + 1, num(r, 4), num(r, 4) * 2 + 1, 2 * m + 1))
        p.set(x, v * sg())
        if x != y:
            p.set(y, m * sg())
        p.add('mz_zxy', 'invert', z, x, y)
        p.out(z, B[y] + 1)
    elif k == 'powm':
        x, y, q = r.sample(range(6), 3)
        z = r.choice((x, y, q, z))
        t = r.random()
        m = r.choice(P) if t < .4 else (num(r, 4) or 7)
        if t > .85:
            m = r.choice((1, 2, 4, 1 << r.randrange(200), (num(r, 2) or 1) << r.randrange(1, 130)))
        e = r.choice((0, 1, 2, 3, m - 1, m, num(r, 3), num(r, 4), 1 << r.randrange(200)))
        v = r.choice((0, 1, m - 1, m, m + 1, num(r, 4), num(r, 5)))
        f = r.choice(('powm', 'powm', 'powm_sec', 'powm_ui'))
        if f == 'powm_sec':
            m |= 1
        if f == 'powm' and r.random() < .2:
            e = -e
            import math
            if m == 1 or math.gcd(v, m) != 1:
                v, m = v | 1, r.choice(P)
                if v % m == 0:
                    v += 1
        p.set(x, v * sg())
        p.set(q, m * (sg() if f != 'powm_sec' else 1))
        if f == 'powm_ui':
            p.add('mz_powm', f, z, x, hx(u), q)
        else:
            p.set(y, e)
            p.add('mz_powm', f, z, x, y, q)
        p.out(z, B[q] + 1)
    elif k == 'sqrt':
        v = num(r, 4)
        if r.random() < .7:
            v = v * v + r.choice((0, -1, 1, 2 * v, 2 * v + 1))
        p.set(x, max(v, 0))
        if r.random() < .4:
            p.add('mz_zx', 'sqrt', z, x)
            p.out(z, B[x] + 1)
        else:
            z, q = r.sample(range(6), 2)
            if r.random() < .4:
                z = x
            if r.random() < .2:
                q = -1
            if z == q:
                q = -1
            p.add('mz_zzx', z, q, x)
            p.out(z, B[x])
            if q >= 0:
                p.out(q, B[x])
    elif k == 'root':
        e = r.choice((1, 2, 3, 4, 5, 7, 10, 31, 64, r.randint(1, 100)))
        v = num(r, 1 if e > 8 else 2 if e > 3 else 3)
        if e > 20:
            v = r.randrange(20)
        v = v ** e + r.choice((0, 0, 1, -1, v)) if r.random() < .7 else num(r, 4)
        v = max(v, 0)
        p.set(x, v * (sg() if e % 2 else 1))
        if r.random() < .5:
            p.add('mz_zxu', 'root', z, x, hx(e))
            p.out(z, B[x] + 1)
        else:
            z, q = r.sample(range(6), 2)
            if r.random() < .3:
                q = -1
            p.add('mz_rootrem', z, q, x, hx(e))
            p.out(z, B[x] + 1)
            if q >= 0:
                p.out(q, B[x] + 1)
    elif k == 'sym':
        f = r.choice('jacobi legendre kronecker kronecker kronecker_ui ui_kronecker kronecker_si si_kronecker'.split())
        a, n = num(r, 3), num(r, 3)
        if r.random() < .2:
            a = n * r.choice((0, 1, 2)) + r.choice((0, 1, 2))
        if f == 'jacobi':
            n |= 1
        if f == 'legendre':
            n = r.choice(P)
        if '_' in f:
            p.set(x, a * sg())
            if f.endswith('si') or f.startswith('si'):
                p.add('mz_pxs', f, x, hx(min(u, (1 << p.w - 1) - 1) * sg()))
            else:
                p.add('mz_pxu', f, x, hx(u))
        else:
            x, y = r.sample(range(6), 2)
            p.set(x, a * sg())
            p.set(y, n * (sg() if f != 'legendre' else 1))
            p.add('mz_pxy', f, x, y)
    elif k == 'sqrtm':
        x, y = r.sample(range(6), 2)
        m = r.choice(P + primes)
        v = num(r, 4)
        v = r.choice((v * v % m, v, 0, 1, m - 1, v * v, m, m + 1, m * m))
        p.set(x, v * r.choice((1, 1, 1, -1)))
        p.set(y, m)
        z = r.choice((z, x, y))
        p.add('mz_zxy', 'sqrtm', z, x, y)
        p.out(z, B[y])
    elif k == 'sqrtpq':
        x, y, q = r.sample(range(6), 3)
        a, b = r.sample(P + primes, 2)
        v = num(r, 4)
        v = r.choice((v * v % (a * b), v * v, v, 0, a, a * a % (a * b), 1))
        p.set(x, v)
        p.set(y, a)
        p.set(q, b)
        z = r.choice((z, x, y, q))
        p.add('mz_sqrtpq', z, x, y, q)
        p.out(z, B[y] + B[q])
    elif k == 'comb':
        f = r.choice('fac_ui 2fac_ui primorial_ui fib_ui lucnum_ui mfac_uiui bin_uiui bin_siui bin_ui fib2_ui lucnum2_ui'.split())
        n = r.choice((0, 1, 2, 3, 4, 5, r.randrange(40), r.randrange(300)))
        if f in ('fac_ui', '2fac_ui', 'primorial_ui', 'fib_ui', 'lucnum_ui'):
            p.add('mz_zu', f, z, hx(n))
        elif f == 'mfac_uiui':
            p.add('mz_zuu', f, z, hx(n), hx(r.randint(1, 9)))
        elif f in ('bin_uiui', 'bin_siui'):
            a = r.choice((n, n // 2, n + 1, 0, 1, r.randrange(60)))
            b = r.choice((0, 1, n, n // 2, max(n - 1, 0), min(n + 1, 80), r.randrange(40)))
            p.add('mz_zuu', f, z, hx(a * (sg() if 'si' in f else 1)), hx(b))
        elif f == 'bin_ui':
            p.set(x, r.choice((num(r, 2), r.randrange(30), 1 << 32, 1 << 64)) * sg())
            p.add('mz_zxu', f, z, x, hx(r.randrange(20)))
        else:
            q = r.choice([i for i in range(6) if i != z])
            n = r.choice((0, 1, 2, 3, 46, 47, 48, 92, 93, 94, r.randrange(300)))
            p.add('mz_zzu', f, z, q, hx(n))
            p.out(q, 3000)
        p.out(z, 3000)
    elif k == 'pow':
        e = r.choice((0, 1, 2, 3, 4, 5, 8, 15, 16, 17, r.randrange(40)))
        if r.random() < .5:
            p.set(x, num(r, 2) * sg())
            p.add('mz_zxu', 'pow_ui', z, x, hx(e))
        else:
            p.add('mz_zuu', 'ui_pow_ui', z, hx(u), hx(e))
        p.out(z, 6000)
    elif k == 'perfect':
        e = r.choice((2, 2, 3, 4, 5, 6, 7, 9, 11, 13, 30))
        v = num(r, 1) if e > 3 else num(r, 2)
        if e > 10:
            v = r.randrange(50)
        v = v ** e + r.choice((0, 0, 0, 1, -1))
        p.set(x, v * sg())
        p.add('mz_px', r.choice(('perfect_square_p', 'perfect_power_p')), x)
    elif k == 'remove':
        b = r.choice((2, 3, 4, 10, 1 << 64, num(r, 1), num(r, 1))) or 3
        x, y = r.sample(range(6), 2)
        p.set(x, b ** r.choice((0, 1, 2, 3, 8, 9)) * num(r, 2) * sg())
        p.set(y, b * sg() if b > 1 else 3)
        if abs(p.val[y]) < 2:
            p.set(y, 3)
        p.add('mz_zxy', 'remove', z, x, y)
        p.out(z, B[x])


def programs(r, w, count, steps, maxl, primes):
    out = []
    for _ in range(count):
        p = Prog(r, w, maxl)
        for _ in range(steps):
            step(p, r, 64 * maxl + 400, primes)
        out.append(p.ev)
    return out


def primality(r, k):
    """Primality and prime search."""
    tr = []

    def one(n, *evs):
        tr.append([['mz_set', 0, mag(n), 0]] + [list(e) for e in evs])
    tests = lambda: (('mz_prime', 'mr', 0, 1, 7), ('mz_prime', 'probab', 0, 8, r.randrange(256)), ('mz_pxu', 'lucas', 0, hx(r.choice((50, 1000)))),
                     ('mz_prime', 'mr', 0, 5, 9), ('mz_prime', 'mr_random', 0, 5, r.randrange(256)))
    for n in list(range(0, 400)) + PSEUDO + P:
        one(n, *tests())
    for _ in range(100 * k):
        b = r.choice((16, 31, 32, 33, 48, 63, 64, 65, 96, 128, 160, 256))
        one(prime(r, b), *tests())
        one(r.getrandbits(b) | 1, *tests())
    for _ in range(20 * k):             # products of related primes
        a = prime(r, r.choice((15, 20, 32, 40)))
        for m in (2, 3, 4):
            b = m * (a - 1) + 1
            if isprime(b):
                one(a * b, *tests())
        one(a * a, *tests())
        one(a * prime(r, 30), *tests())
    neg = [['mz_set', 0, b'\x07', 1]]
    tr.append(neg + [['mz_prime', 'probab', 0, 8, 1], ['mz_prime', 'mr', 0, 2, 1]])
    for _ in range(60 * k):
        n = r.choice((r.randrange(200), r.getrandbits(32), r.getrandbits(63), r.getrandbits(64), r.getrandbits(100)))
        if r.random() < .3:
            n = r.choice(P) + r.choice((-1, 0, 1))
        one(n, ('mz_search', 'nextprime', r.randrange(3), 0, 0, r.randrange(256)))
        one(n | 1, ('mz_search', 'findprime', r.randrange(3), 0, hx(r.choice((0, 1, 2, 10, 40, 300))), r.randrange(256)))
    for _ in range(12 * k):
        one(0, ('mz_search', 'randprime', 1, 0, r.choice((8, 16, 31, 32, 33, 64, 65, 100, 128)), r.randrange(256)))
    for _ in range(100 * k):
        one(num(r, 4) or 1, ('mz_search', 'urandomm', 1, 0, 0, r.randrange(256)))
        one(0, ('mz_search', 'urandomb', 1, 0, r.choice((0, 1, 31, 32, 33, 63, 64, 65, r.randrange(300))), r.randrange(256)))
    return tr


def limb_ops(r, w, count):
    tr = []
    add = lambda *e: tr.append([list(e)])

    def v(n, x=None):
        x = num(r, exact=n) if x is None else x
        return (x & (1 << 64 * n) - 1).to_bytes(8 * n, 'big')

    def top(b):                         # the top limb of either size must not be zero
        b = bytearray(b)
        if not any(b[:4]):
            b[r.randrange(4)] |= r.choice((1, 128, 255))
        return bytes(b)
    def operand(f, n, m):
        x = r.choice((0, 1, 2, num(r, exact=n) % m, num(r, exact=r.randint(1, n)) % m, m - 1, m - 2 if m > 2 else 0))
        if f.endswith('_n'):
            return f, v(n, x)
        b = v(n, x)
        while b and not any(b[:8]):
            b = b[8:]
        return f, b if b == b'' or any(b[:4]) else (v(1, m)[:0])
    for _ in range(count):
        k = r.choices(('gcd', 'inv', 'secinv', 'jac', 'gcd1', 'powm', 'sqrt'), (5, 8, 8, 6, 3, 12, 6))[0]
        n = r.choice((1, 1, 2, 3, 4, 5))
        if k == 'gcd':
            y = bytearray(top(v(n)))
            y[-1] |= 1
            x = top(v(r.randint(n, n + 3)))
            add('mn_nt', 'gcd', bytes(x), bytes(y))
        elif k == 'inv':
            y = bytearray(top(v(n)))
            y[-1] |= 1
            add('mn_nt', *operand(r.choice(('invert_n', 'invert')), n, int.from_bytes(y, 'big')), bytes(y))
        elif k == 'secinv':
            m = r.choice([q for q in P if q.bit_length() > 64 and q.bit_length() % 64 in (0, 63, 33, 34, 60)] + [(1 << 64) - 59, (1 << 127) - 1, (1 << 255) - 19])
            n = (m.bit_length() + 63) // 64
            if w == 32 and m >> 64 * n - 32 == 0:
                continue
            x = r.choice((0, 1, 2, m - 1, r.randrange(m), num(r, exact=n) % m))
            add('mn_nt', r.choice(('sec_invert_n', 'sec_invert')), v(n, x), v(n, m))
        elif k == 'jac':
            y = bytearray(top(v(n)))
            y[-1] |= 1
            add('mn_nt', *operand(r.choice(('jacobi_n', 'jacobi')), n, int.from_bytes(y, 'big')), bytes(y))
        elif k == 'gcd1':
            add('mn_gcd1', top(v(n)), hx(small(r, w) or 1))
        elif k == 'powm':
            f = r.choice(('powm', 'sec_powm'))
            m = bytearray(top(v(n)))
            m[-1] |= 1
            if f == 'powm' and r.random() < .4:
                m[-1] &= r.choice((0xfe, 0xf0, 0))
            if int.from_bytes(m, 'big') < 2:
                continue
            y = top(v(r.choice((1, 1, 2, 3))))
            x = v(r.choice((n, n, 1)))
            x = (int.from_bytes(x, 'big') % int.from_bytes(m, 'big')).to_bytes(len(m), 'big')
            add('mn_powm', f, x, y, bytes(m))
        else:
            s = num(r, exact=n)
            x = s * s + r.choice((0, 1, 2 * s, -1)) if r.random() < .7 else num(r, exact=2 * n)
            x = max(1, x)
            nb = (x.bit_length() + 63) // 64
            b = x.to_bytes(8 * nb, 'big')
            if w == 32 and not any(b[:4]):
                continue
            add('mn_sqrtrem', b)
    return tr


def check(c):
    r = vt.rng('c26')
    k = 8 if vt.THOROUGH else 1
    ex = vt.build_all(['w64', 'w32', 'l32', 'rel'])
    primes = [prime(r, r.choice((16, 32, 40, 64, 65, 100, 128))) for _ in range(30)]
    primes = [q for q in primes if q > 2]
    tr = programs(r, 32, 1400 * k, 16, 4, primes) + programs(r, 32, 40 * k, 8, 40, primes) + limb_ops(r, 32, 5000 * k) + primality(r, k)
    c.run('MpiTrace', tr, exes={v: ex[v] for v in ('w64', 'l32', 'rel')})
    tr = programs(r, 64, 1000 * k, 16, 4, primes) + limb_ops(r, 64, 4000 * k)
    c.run('MpiTrace', tr, exes={v: ex[v] for v in ('w64', 'w32', 'rel')})
