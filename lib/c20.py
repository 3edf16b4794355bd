"""C20: Schnorr signatures, batches and x-only keys."""
import hashlib
import vt
from c01 import data
from ec import CURVES, bad_points

XOF = {'p192': 'sha256', 'p224': 'sha256', 'p256': 'sha256', 'p384': 'sha384', 'p521': 'shake256', 'secp256k1': 'sha256'}


def xof(C, m):
    h = hashlib.shake_256(m).digest(C.ss) if XOF[C.name] == 'shake256' else hashlib.new(XOF[C.name], m).digest()
    return h[:C.ss]


def scalar(C, m):
    return (int.from_bytes(xof(C, m), 'big') % (1 << C.n.bit_length())) % C.n


def tagged(C, tag, m):
    t = hashlib.sha256(tag).digest() if XOF[C.name] == 'sha256' else hashlib.shake_256(tag).digest(64 if C.name == 'p384' else 68)
    return t + t + m


def legacy_e(C, r, A, m):
    return scalar(C, C.fb(r) + C.enc(A, 2) + m)


def bip_e(C, r, A, m):
    return scalar(C, tagged(C, b'BIP0340/challenge', C.fb(r) + C.fb(A[0]) + m))


def square(C, y):
    return y == 0 or pow(y, (C.p - 1) // 2, C.p) == 1


def sign(C, legacy, a, k, m, flip=False):
    """A signature with a chosen nonce -> (r, s, A); flip: against the rule for the nonce's point."""
    A, R = C.G(a), C.G(k)
    n = C.n
    if legacy:
        good, e = square(C, R[1]), legacy_e(C, R[0], A, m)
    else:
        if A[1] % 2:
            a, A = n - a, C.neg(A)
        good, e = R[1] % 2 == 0, bip_e(C, R[0], A, m)
    if good == flip:
        k = n - k
    return R[0], (k + e * a) % n, A


class Prog:
    """Operations on x-only keys, following discrete logarithms."""

    def __init__(self, r, C):
        self.r, self.C, self.ev = r, C, []
        self.key(C.scalars(r, 1)[0])
        self.ev.append(['xs_create', C.name, '.'])
        self.q = self.even(self.d)

    def even(self, k):
        P = self.C.G(k)
        return k if P[1] % 2 == 0 else self.C.n - k

    def key(self, k):
        self.ev.append(['xs_pimport', self.C.name, self.C.sb(k)])
        self.d = k

    def x(self, k):
        return self.C.fb(self.C.G(k)[0])

    def step(self):
        C, r, ev, N, n = self.C, self.r, self.ev, self.C.name, self.C.n
        k = r.randrange(18)
        cur = self.even(self.d) if k < 3 else self.q
        t = r.choice([0, 1, n - 1, n, cur, n - cur, pow(cur, -1, n), (1 - cur) % n, -2 * cur % n] + C.scalars(r, 5))
        ok = t < n
        tb = C.sb(t)
        if k == 0:
            ev.append(['xs_padd', N, '.', tb])
            if ok and (cur + t) % n:
                self.d = (cur + t) % n
        elif k == 1:
            ev.append(['xs_pmul', N, '.', tb])
            if ok and t:
                self.d = self.d * t % n
        elif k == 2:
            ev.append(['xs_pexport', N, '.'])
            self.d = cur
        elif k == 3:
            ev.append(['xs_pinv', N, '.'])
            self.d = pow(self.d, -1, n)
        elif k in (4, 5):
            ev.append(['xs_tadd', N, '.', tb])
            if ok and (cur + t) % n:
                self.q = self.even((cur + t) % n)
        elif k == 6:
            ev.append(['xs_tmul', N, '.', tb])
            if ok and t:
                self.q = self.even(cur * t % n)
        elif k in (7, 8, 9, 10):
            s = (cur + t) % n if k < 9 else cur * t % n
            x = self.x(s) if s else C.fb(0)
            neg = (C.G(s)[1] % 2) if s else 0
            w = r.randrange(5)
            if w == 0:
                neg ^= 1
            if w == 1:
                x = r.choice((self.x(r.randrange(1, n)), bytes([x[0] ^ 128]) + x[1:], x[:-1] + bytes([x[-1] ^ 1]), C.fb(0)))
            ev.append(['xs_taddc' if k < 9 else 'xs_tmulc', N, '.', tb, x, r.choice((1, 2, -1, 255)) if neg and w == 2 else neg])
        elif k in (11, 12):
            o = r.choice((cur, 2 * cur % n, C.scalars(r, 1)[0]))
            o = self.even(o)
            a = ['.', r.choice(('.', self.x(o))) if o == cur else self.x(o)]
            r.shuffle(a)
            ev.append(['xs_add2', N] + a)
            if (o + cur) % n:
                self.q = self.even((o + cur) % n)
        elif k in (13, 14):
            ds = [self.even(r.choice((cur, 2 * cur % n, 1, C.scalars(r, 1)[0]))) for _ in range(r.randrange(4))]
            s = sum(ds) % n
            # two keys whose even representatives cancel the rest
            if s and r.random() < 0.4 and self.even(n - s) == n - s:
                ds.insert(r.randrange(len(ds) + 1), n - s)
            ps = [self.x(o) for o in ds]
            ev.append(['xs_combine', N] + ps)
            if sum(ds) % n:
                self.q = self.even(sum(ds) % n)
        elif k == 15:
            ev.append(['xs_derive', N, '.', '.'])
            self.q = self.even(self.q * self.d % n)
        elif k == 16:
            ev.append([r.choice(('xs_export', 'xs_check')), N, '.'])
            ev.append(['xs_grind', N, '.', r.randrange(2)])
        else:
            self.key(C.scalars(r, 1)[0])
            ev.append(['xs_create', N, '.'])
            self.q = self.even(self.d)


def traces(r):
    big = 4 if vt.THOROUGH else 1
    tr = []
    for C in CURVES:
        n, p, N = C.n, C.p, C.name
        m256, s256 = 256**C.fs, 256**C.ss
        one = lambda *e: tr.append([list(e)])
        one('bs_support', N), one('xs_size', N)
        lim = [z for z in (0, 1, 2, n - 2, n - 1, n, n + 1, n // 2, n // 2 + 1, s256 - 1) if z < s256]
        for legacy in (1, 0):
            if legacy and p % 4 != 3:
                continue
            o = 'bs_' if legacy else 'xs_'
            key = (lambda A: C.enc(A, r=r)) if legacy else (lambda A: C.fb(A[0]))
            sig = lambda q, s: C.fb(q) + C.sb(s)
            # signing
            for k in lim + C.scalars(r, 14 * big):
                m = data(r, r.choice((0, 1, 31, 32, 33, 64, 100, 200)))
                ev = [] if r.random() < 0.9 else [['ec_rand', N, data(r, 32)]]
                if legacy:
                    tr.append(ev + [['bs_sign', N, m, C.sb(k)]])
                else:
                    tr.append(ev + [['xs_sign', N, m, C.sb(k), r.choice((None, data(r, 32), bytes(32)))]])
            # verification
            goods, bads = [], []
            for _ in range(10 * big):
                a, k = C.scalars(r, 2)
                w = r.randrange(8)
                if w < 4:
                    k = (a, 2 * a, a * pow(2, -1, n), 3 * a)[w] % n
                    k = r.choice((k, n - k)) or 1
                m = data(r, r.choice((0, 1, 32, 32, 70)))
                q, s, A = sign(C, legacy, a, k, m)
                x = key(A)
                good = (m, sig(q, s), x)
                goods.append(good)
                e = legacy_e(C, q, A, m) if legacy else bip_e(C, q, A, m)
                fq, fs, _ = sign(C, legacy, a, k, m, True)
                aa = a if legacy or C.G(a)[1] % 2 == 0 else n - a
                b = [(m, sig(fq, fs), x),                            # nonce point of the wrong sign
                     (m, sig(q, e * aa), x) if e else good,          # nonce point at infinity
                     (m, sig(q, s + 1), x), (m, sig(q, (s - 1) % n), x), (m, sig(q, n - s), x), (m, sig(q, 0), x), (m, sig(0, s), x), (m, sig(q, n), x), (m, sig(p, s), x),
                     (m, sig(q ^ 1, s), x), (m + b'\0', sig(q, s), x), (m[:-1] if m else b'\0', sig(q, s), x), (m, sig(C.g[0], s), x), (m, sig(A[0], s), x), (m, sig(p - 1, s), x),
                     (m, sig(s % p, q % n), x), (m, b'\xff' * (C.fs + C.ss), x)]
                if s + n < s256:
                    b.append((m, sig(q, s + n), x))
                if q + p < m256:
                    b.append((m, sig(q + p, s), x))
                # a key that is not a point, or another one
                B = C.add(A, C.g) or A
                b.append((m, sig(q, s), key(B)))
                if legacy:
                    b.append((m, sig(q, s), key(C.neg(A))))
                    b.append((m, sig(q, s), r.choice(bad_points(C, r, A))))
                else:
                    z = r.choice((0, 1, 5, p - 1, p, p + 1, m256 - 1, r.randrange(p)))
                    b.append((m, sig(q, s), C.fb(z if z < m256 else p)))
                    # a key not lifted to the even point, and an odd key taken as it is
                    da = n - aa
                    b.append((m, sig(q, (k if C.G(k)[1] % 2 == 0 else n - k) + e * da), x))
                b = [z for z in b if z[1] != good[1] or z[2] != x or z[0] != m]
                bads += b
                one(o + 'verify', N, *good)
                for z in b if vt.THOROUGH else r.sample(b, 10):
                    one(o + 'verify', N, *z)
            # with r a small x: off the curve or on it, and p - r
            for q in (0, 1, 2, 3, 4, 5, p - 1, p - 2, p - 3, n % p, C.g[0]):
                one(o + 'verify', N, b'', sig(q, r.choice((0, 1, 2, n - 1))), key(C.g))
            # batches
            def batch(entries, size=None):
                if size is None:
                    size = r.choice((2, 2, 3, 4, 5, 8, 16, 64))
                one(o + 'batch', N, size, *[y for z in entries for y in z])
            batch([])
            for k in range(1, 7):
                batch([r.choice(goods) for _ in range(k)])
            for k in (r.randrange(7, 20), 20):
                batch([r.choice(goods) for _ in range(k)])
            for z in goods:
                batch([z])
            for z in r.sample(bads, min(len(bads), 30 * big)):
                batch([z])
            for _ in range(14 * big):
                k = r.choice((2, 2, 3, 4, 5, 6, 7, 9))
                b = [r.choice(goods) for _ in range(k)]
                for i in r.sample(range(k), r.choice((1, 1, 2, k))):
                    b[i] = r.choice(bads)
                batch(b)
            # errors that cancel without coefficients: in the same chunk, in different ones, and with equal coefficients of different chunks
            for _ in range(10 * big):
                k = r.choice((2, 3, 4, 6, 8, 10))
                b = [r.choice(goods) for _ in range(k)]
                d = r.choice((1, r.randrange(1, n)))
                i, j = r.sample(range(k), 2)
                if r.random() < 0.4:
                    size = r.choice((2, 4))
                    i = 0
                    j = min(k - 1, size // 2 * r.choice((1, 2))) or 1
                else:
                    size = r.choice((2, 3, 4, 8, 16, 64))
                for t, dd in ((i, d), (j, n - d)):
                    m, sg, x = b[t]
                    s = (int.from_bytes(sg[C.fs:], 'big') + dd) % n
                    b[t] = (m, sg[:C.fs] + C.sb(s), x)
                batch(b, size)
            # exchanged parts, repetition
            for _ in range(4 * big):
                x, y = r.choice(goods), r.choice(goods)
                batch([(x[0], y[1], x[2]), (y[0], x[1], y[2])])
                batch([(x[0], x[1], y[2]), (y[0], y[1], x[2])])
                batch([(y[0], x[1], x[2]), (x[0], y[1], y[2])])
                batch([x, x, x]), batch([x, y, x, y], 2)
            # points of a batch that coincide or cancel: the same key and nonce for several messages, keys A and -A
            a, k = C.scalars(r, 2)
            b = []
            for aa, kk in ((a, k), (a, k), (n - a, k), (a, a), (n - a, n - a), (1, 1), (n - 1, 1), (1, n - 1), (a, 1)):
                m = data(r, 8)
                q, s, A = sign(C, legacy, aa, kk, m)
                b.append((m, sig(q, s), key(A)))
            batch(b, 64), batch(b, 2), batch(b[::-1], 7), batch(b[5:], 8)
            b[r.randrange(len(b))] = r.choice(bads)
            batch(b, 64), batch(b, 4)
        # x-only keys
        for _ in range(20 * big):
            g = Prog(r, C)
            for _ in range(r.randrange(4, 12)):
                g.step()
            tr.append(g.ev)
        for k in lim:
            kb = C.sb(k)
            for op in ('xs_pverify', 'xs_pexport', 'xs_pinv', 'xs_create'):
                one(op, N, kb)
            one('xs_derive', N, C.fb(C.g[0]), kb)
            one('xs_pimport', N, b'\0' * r.randrange(3) + kb)
            for t in lim + [n - k if 0 < k < n else 5]:
                one('xs_padd', N, kb, C.sb(t)), one('xs_pmul', N, kb, C.sb(t))
                for P in (C.g, C.G(k) or C.g):
                    one('xs_tadd', N, C.fb(P[0]), C.sb(t)), one('xs_tmul', N, C.fb(P[0]), C.sb(t))
        for x in list(range(12)) + [p - 1, p - 2, p - 3, p, p + 1, p + 2, p + 5, m256 - 1, n] + [r.randrange(p) for _ in range(12)]:
            if x < m256:
                b = C.fb(x)
                one('xs_check', N, b), one('xs_export', N, b)
                one('xs_tadd', N, b, C.sb(r.choice((0, 1, 5)))), one('xs_tmul', N, b, C.sb(r.choice((1, 2)))), one('xs_add2', N, *r.choice(([b, C.fb(C.g[0])], [C.fb(C.g[0]), b], [b, b])))
                one('xs_combine', N, *r.choice(([b], [C.fb(C.g[0]), b], [b, C.fb(C.g[0])], [C.fb(C.g[0]), b, C.fb(C.g[0])]))), one('xs_derive', N, b, C.sb(7)), one('xs_grind', N, b, 0)
                one('xs_import', N, b'\0' * r.randrange(2) + b, b'')
                one('xs_taddc', N, b, C.sb(0), b, 0), one('xs_tmulc', N, b, C.sb(1), b, 0)
        # points with equal or opposite y
        found = 0
        while found < 4 * big:
            k = r.randrange(1, n) if found else r.randrange(1, 40)
            P = C.G(k)
            for Q in C.cousins(P):
                found += 1
                x, y = C.fb(P[0]), C.fb(Q[0])
                one('xs_add2', N, x, y), one('xs_combine', N, x, y), one('xs_combine', N, y, x, x)
                one('xs_tadd', N, y, C.sb(k)), one('xs_tadd', N, y, C.sb(n - k))
        for P in [C.g] + C.cousins(C.g):
            one('xs_grind', N, C.fb(P[0]), 0), one('xs_grind', N, C.fb(P[0]), 1)
        for _ in range(4 * big):
            P = C.point(r)
            x, y = C.fb(P[0]), C.fb(P[1])
            for a, b in ((x, y), (x, b''), (b'', y), (b'', b''), (x, C.fb(p - P[1])), (x, x), (b'\1' + x, y), (x, b'\1' + y), (x, C.fb(P[1] + 1)), (b'\0' + x, b'\0\0' + y), (x[:-1], b'')):
                one('xs_import', N, a, b)
            one('xs_gen', N, data(r, 32)), one('xs_pgrind', N, data(r, 32), r.randrange(2))
    return tr


def check(c):
    c.model('CurveTest')
    c.model('SchnorrModel')
    c.run('SchnorrTrace', traces(vt.rng('c20')), variants=('w64', 'l32'))
