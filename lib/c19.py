"""C19: operations on elliptic-curve keys."""
import vt
import c20
import c21
import c22
from c01 import data
from ec import CURVES, bad_points


class Prog:
    """A sequence of operations on one curve; follows the discrete logarithms to aim at special cases."""

    def __init__(self, r, C):
        self.r, self.C, self.ev = r, C, []
        self.d = self.q = None
        if r.random() < 0.2:
            self.rand()
        self.key(r.choice(C.scalars(r, 4)))
        self.ev.append(['ec_create', C.name, '.', r.randrange(2)])
        self.q = self.d

    def rand(self):
        self.ev.append(['ec_rand', self.C.name, data(self.r, 32)])

    def key(self, k):
        self.ev.append(['ec_pimport', self.C.name, b'\0' * self.r.choice((0, 0, 1, 5)) + self.C.sb(k)])
        self.d = k

    def tweak(self, cur):
        """a scalar: special relative to the current value"""
        C, r = self.C, self.r
        n = C.n
        return r.choice([0, 1, n - 1, n, n + 1, cur % n, -cur % n, pow(cur, -1, n) if cur % n else 0, (1 - cur) % n, (-2 * cur) % n, 256**C.ss - 1] + C.scalars(r, 6))

    def step(self):
        C, r, ev = self.C, self.r, self.ev
        n, N = C.n, C.name
        z = r.randrange(2)
        k = r.randrange(24)
        t = self.tweak(self.d if k < 5 else self.q)
        if t >= 256**C.ss:
            t = n - 1
        ok = t < n
        tb = C.sb(t)
        if k == 0:
            ev.append(['ec_padd', N, '.', tb])
            if ok and (self.d + t) % n:
                self.d = (self.d + t) % n
        elif k == 1:
            ev.append(['ec_pmul', N, '.', tb])
            if ok and t:
                self.d = self.d * t % n
        elif k == 2:
            ev.append(['ec_pneg', N, '.'])
            self.d = n - self.d
        elif k == 3:
            ev.append(['ec_pinv', N, '.'])
            self.d = pow(self.d, -1, n)
        elif k == 4:
            ev.append([r.choice(('ec_pexport', 'ec_pverify')), N, '.'])
        elif k == 5:
            ev.append(['ec_create', N, '.', z])
            self.q = self.d
        elif k == 6:
            ev.append(['ec_conv', N, '.', z])
        elif k == 7:
            ev.append([r.choice(('ec_export', 'ec_check')), N, '.'])
        elif k in (8, 9):
            ev.append(['ec_tadd', N, '.', tb, z])
            if ok and (self.q + t) % n:
                self.q = (self.q + t) % n
        elif k in (10, 11):
            ev.append(['ec_tmul', N, '.', tb, z])
            if ok and t:
                self.q = self.q * t % n
        elif k == 12:
            ev.append(['ec_neg', N, '.', z])
            self.q = n - self.q
        elif k == 13:
            ev.append(['ec_add2', N, '.', '.', z])
            self.q = self.q * 2 % n
        elif k in (14, 15):
            o = r.choice((self.q, n - self.q, self.q * 2, self.q * -2, C.scalars(r, 1)[0])) % n
            a = ['.', C.enc(C.G(o), r=r)]
            r.shuffle(a)
            ev.append(['ec_add2', N] + a + [z])
            if (o + self.q) % n:
                self.q = (o + self.q) % n
        elif k in (16, 17, 18):
            ds = [r.choice((self.q, n - self.q, 2 * self.q, 1, n - 1, C.scalars(r, 1)[0])) % n for _ in range(r.randrange(6))]
            s = sum(ds) % n
            if s and r.random() < 0.5:
                ds.insert(r.randrange(len(ds) + 1), n - s)      # ends at infinity
                if r.random() < 0.4:
                    r.shuffle(ds)
            ps = ['.' if o == self.q and r.random() < 0.5 else C.enc(C.G(o), r=r) for o in ds]
            if ps and r.random() < 0.15:
                ps[r.randrange(len(ps))] = r.choice(bad_points(C, r))
                ok = False
            else:
                ok = True
            ev.append(['ec_combine', N, z] + ps)
            if ok and sum(ds) % n:
                self.q = sum(ds) % n
        elif k in (19, 20):
            ev.append(['ec_derive', N, '.', '.', z])
            self.q = self.q * self.d % n
        elif k == 21:
            o = C.scalars(r, 1)[0]
            ev.append(['ec_derive', N, C.enc(C.G(o), r=r), '.', z])
            self.q = o * self.d % n
        elif k == 22:
            if r.random() < 0.3:
                self.rand()
            self.key(C.scalars(r, 1)[0])
        else:
            w = r.randrange(2)
            ev.append(['ec_grind', N, '.', w])


def check(c):
    c.model('CurveTest')
    r = vt.rng('c19')
    big = 5 if vt.THOROUGH else 1
    tr = []
    for C in CURVES:
        n, p, N = C.n, C.p, C.name
        m = 256**C.fs
        one = lambda *e: tr.append([list(e)])
        for _ in range(40 * big):
            g = Prog(r, C)
            for _ in range(r.randrange(4, 14)):
                g.step()
            tr.append(g.ev)
        # private keys
        lim = [z for z in (0, 1, 2, n - 2, n - 1, n, n + 1, n // 2, n // 2 + 1, 256**C.ss - 1, 1 << (n.bit_length() - 1), p % 256**C.ss) if z < 256**C.ss]
        for k in lim:
            kb = C.sb(k)
            for op in ('ec_pverify', 'ec_pexport', 'ec_pneg', 'ec_pinv'):
                one(op, N, kb)
            one('ec_create', N, kb, 0), one('ec_create', N, kb, 1)
            one('ec_derive', N, C.enc(C.G(3), r=r), kb, r.randrange(2))
            for t in lim:
                one('ec_padd', N, kb, C.sb(t)), one('ec_pmul', N, kb, C.sb(t))
            for b in (kb, kb.lstrip(b'\0'), b'\0' * 3 + kb, b'\1' + kb, kb + b'\0', kb[:-1], b'\1' + b'\0' * len(kb), b'\0' * r.randrange(200)):
                one('ec_pimport', N, b)
        # derivation for many scalars
        for k in (C.scalars(r, None) if vt.THOROUGH else r.sample(C.scalars(r, None), 30)):
            one('ec_create', N, C.sb(k), r.randrange(2))
        for _ in range(16 * big):
            k, o = C.scalars(r, 2)
            P = C.enc(r.choice((C.G(o), C.point(r))), r=r)
            one('ec_derive', N, P, C.sb(k), r.randrange(2)), one('ec_tmul', N, P, C.sb(k), r.randrange(2)), one('ec_tadd', N, P, C.sb(k), r.randrange(2))
        # public keys with scalars at the limits
        for o in (1, n - 1, 2, C.scalars(r, 1)[0]):
            P = C.enc(C.G(o), r=r)
            for t in lim + [o, n - o, 2 * o % n, -2 * o % n, pow(o, -1, n)]:
                one('ec_tadd', N, P, C.sb(t), r.randrange(2)), one('ec_tmul', N, P, C.sb(t), r.randrange(2))
        # parsing
        for _ in range(2 * big):
            for b in bad_points(C, r):
                one('ec_check', N, b), one('ec_conv', N, b, r.randrange(2)), one('ec_export', N, b)
                op = r.choice(('ec_tadd', 'ec_tmul', 'ec_neg', 'ec_add2', 'ec_derive', 'ec_combine', 'ec_grind'))
                z = r.randrange(2)
                Q = C.enc(C.g, r=r)
                one(*{'ec_tadd': [op, N, b, C.sb(1), z], 'ec_tmul': [op, N, b, C.sb(2), z], 'ec_neg': [op, N, b, z], 'ec_add2': [op, N] + r.choice(([b, Q], [Q, b], [b, b])) + [z],
                      'ec_derive': [op, N, b, C.sb(5), z], 'ec_combine': [op, N, z] + r.choice(([b], [Q, b], [b, Q])), 'ec_grind': [op, N, b, z]}[op])
        for x in (0, 1, 2, 3, 4, 5, 6, 7, 8, p - 1, p - 2, p, p + 1, p + 3, m - 1, n, 1 << (p.bit_length() - 1)):
            if x < m:
                for k in (2, 3):
                    one('ec_conv', N, bytes([k]) + C.fb(x), 0)
        # coordinates apart
        for _ in range(8 * big):
            P = C.point(r)
            x, y = C.fb(P[0]), C.fb(P[1])
            for a, b in ((x, y), (x, b''), (b'', y), (b'', b''), (x.lstrip(b'\0'), y), (b'\0' * r.randrange(4) + x, b'\0\0' + y), (x, C.fb(p - P[1])), (x, x), (y, x), (b'\1' + x, y), (x, b'\1' + y),
                         (x, C.fb(P[1] + 1)), (C.fb(P[0] + 1), b''), (x, b'\0'), (b'\0' * 70, b''), (x[:-1], b''), (x + b'\0', b'')):
                one('ec_import', N, a, b, r.choice((-1, 0, 1)), r.randrange(2))
        for k in range(60):
            Q = C.lift(k)
            if Q:
                for a in (k, k + p):
                    for b in (Q[1], Q[1] + p, None):
                        if a < m and (b is None or b < m):
                            for s in (-1, 0, 1):
                                one('ec_import', N, C.fb(a), C.fb(b) if b is not None else b'', s, r.randrange(2))
        # points with equal or opposite y and different x
        k = found = 0
        while found < 6 * big:
            k = r.choice((k + 1, r.randrange(1, n)))
            P = C.G(k)
            for Q in C.cousins(P):
                found += 1
                for S in (Q, C.neg(Q)):
                    z = r.randrange(2)
                    e = lambda X: C.enc(X, r=r)
                    one('ec_add2', N, e(P), e(S), z)
                    one('ec_combine', N, z, e(P), e(S))
                    T = C.point(r)
                    one('ec_combine', N, z, e(C.add(P, C.neg(T))), e(T), e(S))
                    one('ec_combine', N, z, e(S), e(P), e(P))
                    one('ec_tadd', N, e(S), C.sb(k), z)
                    one('ec_tmul', N, e(C.add(P, S)), C.sb(r.randrange(1, n)), z)
        if C.cousins(C.g):
            for Q in C.cousins(C.g):
                for S in (Q, C.neg(Q), C.neg(C.g), C.g, C.add(C.neg(C.g), C.neg(C.g))):
                    one('ec_grind', N, C.enc(S, r=r), 0), one('ec_grind', N, C.enc(S, r=r), 1)
        for o in (n - 1, n - 2, n - 3, 1):
            one('ec_grind', N, C.enc(C.G(o), r=r), 0), one('ec_grind', N, C.enc(C.G(o), r=r), 1)
        # generation
        for _ in range(6 * big):
            one('ec_gen', N, data(r, 32)), one('ec_pgrind', N, data(r, 32), r.randrange(2), r.randrange(2))
    c.run('EcdsaTrace', tr, variants=('w64', 'l32'))
    # keys of the other schemes over the same curves
    for mod, gen, rest in (('SchnorrTrace', c20, 'bs_ xs_sign xs_verify xs_batch xs_size'), ('EddsaTrace', c21, 'ed_sign ed_verify ed_batch ed_single ed_size'), ('EcdhTrace', c22, 'mt_size')):
        r = vt.rng('c19' + mod)
        ts = [t for t in gen.traces(r) if not any(e[0].startswith(tuple(rest.split())) for e in t)]
        c.run(mod, r.sample(ts, min(len(ts), 9000)), variants=('w64', 'l32'))
