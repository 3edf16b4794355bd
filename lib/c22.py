"""C22: X25519, X448 and the conversion of keys."""
import vt
from c01 import data
from ec import EDS, MTS, bad_encodings, root


def traces(r):
    big = 5 if vt.THOROUGH else 1
    tr = []
    for C, E in zip(MTS, EDS):
        N, p, n = C.name, C.p, C.n
        one = lambda *e: tr.append([list(e)])
        one('mt_size', N)
        top = 256**C.fs
        nt = (2 * p + 2 - C.h * n) // 4
        # coordinates: exceptional, on the curve, on the twist, not reduced
        us = [0, 1, 2, 3, 4, 5, 9, p - 1, p - 2, p, p + 1, p + 2, (1 << C.bits) - 1, (1 << C.bits) - 2, 1 << (C.bits - 1), C.A, p - C.A, (C.A * pow(-2, -1, p)) % p, p - 9, C.u]
        us += C.small() + [s + p for s in C.small() if s + p < 1 << C.bits]
        us += [int('55' * C.fs, 16), int('aa' * C.fs, 16), int('f0' * C.fs, 16), (1 << (C.bits - 1)) - 1, (1 << (C.bits // 2)) - 1, 1 << (C.bits // 2)]
        us += [r.randrange(p) for _ in range(12 * big)]
        # mixed order: a prime-order point plus torsion
        for _ in range(6 * big):
            P = E.add(E.G(r.randrange(n)), r.choice(E.torsion()))
            if P[0]:
                us.append((1 + P[1]) * pow(1 - P[1], -1, p) % p if N == 'x25519' else P[1] * P[1] * pow(P[0] * P[0], -1, p) % p)
        us = [u for u in us if u < 1 << C.bits]
        enc = [C.fb(u) for u in us]
        if C.bits % 8:
            enc += [C.fb(u | 1 << C.bits) for u in us]
        # scalars: all clamping patterns
        def scalar():
            k = r.choice((0, top - 1, n, n - 1, n + 1, 2 * n, 4 * n, 8 * n, 8 * n - 1, nt, 2 * nt, 4 * nt, 8 * nt, r.randrange(top), r.randrange(top), r.randrange(top), 1 << r.randrange(8 * C.fs), r.randrange(1 << 64),
                          int('55' * C.fs, 16), int('aa' * C.fs, 16)))
            if r.random() < 0.2:
                k = r.randrange(top) & ~255 | r.randrange(256)
            if r.random() < 0.3:
                # near a multiple of an order with the clamped bits as they will be
                m = r.choice((n, nt))
                q = ((1 << (C.bits - 1)) + r.randrange(1 << (C.bits - 1))) // m
                k = q * m - q * m % C.h + r.choice((0, 0, C.h, -C.h))
            return C.fb(k % top)
        for b in enc:
            for op in ('mt_check', 'mt_small', 'mt_tors'):
                one(op, N, b)
            for s in (-1, 0, 1):
                one('mt_export', N, b, s), one('mt_convert', N, b, s)
            for _ in range(3):
                one('mt_derive', N, b, scalar())
        # a clamped scalar that is a multiple of the order of the point
        for u in [C.u] + [r.choice(us) for _ in range(8)]:
            for m in (n, nt):
                for _ in range(2):
                    q = ((1 << (C.bits - 1)) // m + 1)
                    q += -q % C.h
                    if q * m < 1 << C.bits:
                        one('mt_derive', N, C.fb(u), C.fb(q * m))
        for _ in range(25 * big):
            k = scalar()
            one('mt_create', N, k), one('mt_derive', N, C.fb(r.randrange(1 << C.bits)), k)
        for i in range(256):
            k = bytearray(data(r, C.fs))
            k[0] = i
            k[-1] = r.randrange(256)
            if i % 4 == 0 or vt.THOROUGH:
                one('mt_create', N, bytes(k))
        for i in range(8 * C.fs):
            if i % 4 == r.randrange(4) or vt.THOROUGH:
                one('mt_derive', N, C.fb(1 << i), C.fb(1 << r.randrange(8 * C.fs)))
                one('mt_derive', N, C.fb((1 << i) - 1), C.fb(1 << r.randrange(8 * C.fs)))
        for _ in range(4 * big):
            one('mt_gen', N, data(r, 32)), one('mt_grind', N, data(r, 32), r.randrange(2))
        for k in range(C.fs + 3):
            b = data(r, k)
            one('mt_pimport', N, b), one('mt_pimport', N, b + b'\0'), one('mt_pimport', N, b + b'\1')
        # coordinates
        for u in us:
            v = root(C.rhs(u), p)
            x, y = C.fb(u), C.fb(v or 0)
            for a, b in ((x, y), (x, b''), (b'', y), (b'', b''), (x, C.fb(p - (v or 0))), (x, C.fb((v or 0) + 1)), (x + b'\0', y), (x, y + b'\0'), (x + b'\1', y), (x.rstrip(b'\0'), y.rstrip(b'\0')), (C.fb(u + p), y),
                         (x, C.fb((v or 0) + p)), (y, x)):
                if vt.THOROUGH or r.random() < 0.4:
                    one('mt_import', N, a, b)
    for E in EDS:
        ps = E.torsion() + [E.g] + [E.point(r) for _ in range(12 * big)] + [E.add(E.G(r.randrange(E.n)), r.choice(E.torsion())) for _ in range(10 * big)]
        for P in ps:
            tr.append([['ed_tomont', E.name, E.enc(P)]])
        for b in bad_encodings(E, r):
            tr.append([['ed_tomont', E.name, b]])
    return tr


def check(c):
    c.model('CurveTest')
    c.model('EcdhModel')
    c.run('EcdhTrace', traces(vt.rng('c22')), variants=('w64', 'l32', 'w32'))
