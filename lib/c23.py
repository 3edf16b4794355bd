"""C23: the prime-order groups of Ristretto and Decaf."""
import vt
from c01 import data
from ec import EDS, root


def check(c):
    c.model('CurveTest')
    c.model('RistrettoModel')
    r = vt.rng('c23')
    big = 4 if vt.THOROUGH else 1
    tr = []
    for C in EDS:
        N, n, p = C.name, C.n, C.p
        one = lambda *e: tr.append([list(e)])
        top = 256**C.fs
        sc = lambda: C.sb(r.choice((0, 1, 2, n - 1, n, r.randrange(n), r.randrange(n), r.randrange(n), C.scalars(r, 1)[0])))
        gs = lambda: C.sb(r.choice((0, 1, 2, n - 1, r.randrange(n), r.randrange(n))))
        pt = lambda: C.rist(C.G(r.choice((0, 1, 2, 3, n - 1, r.randrange(n), r.randrange(n)))))
        one('rs_size', N)
        # private keys
        pool = C.scalars(r)
        for k in pool:
            b = C.sb(k)
            for op in ('rs_pverify', 'rs_pzero', 'rs_pneg', 'rs_pinv', 'rs_create', 'rs_pexport', 'rs_pimport'):
                one(op, N, b)
            for t in r.sample(pool, 2 * big) + [k, -k % n, n - 1, 0]:
                one('rs_padd', N, b, C.sb(t)), one('rs_pmul', N, b, C.sb(t))
            for e in (b + b'\0', b + b'\0' * 9, b.rstrip(b'\0'), b + b'\1', b[:-1], b[:8], b''):
                one('rs_pimport', N, e)
        for _ in range(8 * big):
            w = r.choice((r.randrange(256**(2 * C.ss)), r.randrange(256**C.ss) * n, 256**(2 * C.ss) - 1 - r.randrange(1000), r.randrange(n), n * r.randrange(1000), n * n, n * n - 1, 0))
            one('rs_pwide', N, w.to_bytes(2 * C.ss, 'little'))
        for _ in range(3 * big):
            one('rs_keygen', N, data(r, 32)), one('rs_grind', N, data(r, 32), r.randrange(2))
        # encodings: all small numbers, the extremes and neighbours of good ones
        es = list(range(40)) + [p - i for i in range(-20, 20)] + [top - 1, top - 2, 1 << C.bits, 1 << (C.bits - 1), r.randrange(top), r.randrange(p) & ~1, r.randrange(p) & ~1, r.randrange(p) | 1]
        i2 = root(p - 1, p)
        es += [i2, p - i2] if i2 else []
        for _ in range(5 * big):
            P = C.add(C.G(r.randrange(n)), (0, 1))
            s = int.from_bytes(C.rist(P), 'little')
            es += [s, p - s, s + p, s + (1 << C.bits), s + (1 << (8 * C.fs - 1)), s + 2, s ^ 1, P[1], P[0]]
            # elements of the curve that are not doubled
            es += [int.from_bytes(C.enc(C.point(r)), 'little')]
            # the other roots: encodings of other representatives
            for T in C.torsion():
                R = C.add(P, T)
                v = root(-C.a * (1 - R[1]) * pow(1 + R[1], -1, p) % p, p)
                if v:
                    es += [v, p - v]
        for s in es:
            if 0 <= s < top:
                b = C.fb(s)
                one('rs_check', N, b), one('rs_inf', N, b), one('rs_neg', N, b)
                op = r.choice(('rs_tadd', 'rs_tmul', 'rs_derive', 'rs_add', 'rs_add', 'rs_combine', 'rs_pgrind'))
                one(*{'rs_add': [op, N] + r.choice(([b, pt()], [pt(), b], [b, b])), 'rs_combine': [op, N] + r.choice(([b], [pt(), b], [b, pt()])), 'rs_pgrind': [op, N, b, r.randrange(2)]}.get(op, [op, N, b, sc()]))
        # group operations
        for _ in range(20 * big):
            P = pt()
            one('rs_tadd', N, P, sc()), one('rs_tmul', N, P, sc()), one('rs_derive', N, P, sc()), one('rs_add', N, P, pt()), one('rs_add', N, P, P), one('rs_neg', N, P)
            one('rs_combine', N, *[pt() for _ in range(r.choice((0, 1, 2, 3, 7)))])
            one('rs_pgrind', N, P, r.randrange(2))
            k = r.randrange(n)
            K = C.rist(C.G(k))
            one('rs_add', N, K, C.rist(C.G(n - k))), one('rs_tadd', N, K, C.sb(n - k)), one('rs_combine', N, K, P, C.rist(C.G(n - k)))
        # maps from field elements
        us = [0, 1, 2, 3, 4, 5, p - 1, p - 2, p, p + 1, (1 << C.bits) - 1, 1 << (C.bits - 1)]
        q = root(p - 1, p) or p - 1
        if C.h == 8:
            q = 0x2b8324804fc1df0b2b4d00993dfbd7a72f431806ad2fe478c4ee1b274a0ea0b0
        for t in (C.a * pow(C.d, -1, p), C.d * pow(C.a, -1, p), -1, 1):
            v = root(t * pow(q, -1, p) % p, p)
            us += [v, p - v] if v else []
        us += [r.randrange(top) for _ in range(15 * big)]
        for u in us:
            one('rs_map', N, C.fb(u)), one('rs_hash', N, C.fb(u) + C.fb(r.choice(us)))
            one('rs_hash', N, C.fb(u) + C.fb(u)), one('rs_hash', N, C.fb(u) + C.fb(p - u)), one('rs_hash', N, C.fb(r.randrange(top)) + C.fb(u))
            if u + (1 << C.bits) < top:
                one('rs_map', N, C.fb(u | 1 << (8 * C.fs - 1)))
        # chains
        for _ in range(6 * big):
            t = [['rs_rand', N, data(r, 32)]] if r.random() < 0.4 else []
            t += [['rs_pimport', N, C.sb(r.randrange(n))], ['rs_create', N, '.']]
            for _ in range(12):
                t.append(r.choice([['rs_pneg', N, '.'], ['rs_pinv', N, '.'], ['rs_padd', N, '.', gs()], ['rs_pmul', N, '.', gs()], ['rs_create', N, '.'], ['rs_neg', N, '.'], ['rs_tadd', N, '.', '.'],
                                   ['rs_tmul', N, '.', '.'], ['rs_add', N, '.', pt()], ['rs_add', N, '.', '.'], ['rs_derive', N, pt(), '.'], ['rs_derive', N, '.', '.'], ['rs_combine', N, '.', pt(), '.'],
                                   ['rs_map', N, data(r, C.fs)], ['rs_pgrind', N, '.', r.randrange(2)], ['rs_hash', N, data(r, 2 * C.fs)], ['rs_tadd', N, '.', gs()], ['rs_tmul', N, '.', gs()]]))
            tr.append(t)
    c.run('RistrettoTrace', tr, variants=('w64', 'l32', 'w32'))
