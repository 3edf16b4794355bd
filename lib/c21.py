"""C21: EdDSA."""
import hashlib
import vt
from c01 import data
from ec import EDS, bad_encodings


def ehash(C, m):
    return hashlib.shake_256(m).digest(2 * C.es) if C.name == 'ed448' else hashlib.sha512(m).digest()


def challenge(C, R, A, m, ph, ctx):
    d = C.dom + bytes([ph > 0, len(ctx)]) + ctx if C.always or ph != -1 or ctx else b''
    return int.from_bytes(ehash(C, d + R + A + m), 'little') % C.n


def sign(C, a, k, m, ph, ctx, TA=(0, 1), TR=(0, 1)):
    """A signature by (a G + TA) with the nonce point (k G + TR): satisfies the cofactored equation."""
    A, R = C.enc(C.add(C.G(a), TA)), C.enc(C.add(C.G(k), TR))
    e = challenge(C, R, A, m, ph, ctx)
    return R + ((k + e * a) % C.n).to_bytes(C.es, 'little'), A


def inst(r):
    """prehash flag and context"""
    return r.choice((-1, -1, 0, 1)), r.choice((b'', b'', data(r, 1), data(r, r.choice((2, 13, 100, 254, 255)))))


def traces(r):
    big = 4 if vt.THOROUGH else 1
    tr = []
    for C in EDS:
        n, p, N = C.n, C.p, C.name
        one = lambda *e: tr.append([list(e)])
        one('ed_size', N)
        sc = lambda: C.scalars(r, 1)[0]
        tors = C.torsion()
        # keys and scalars
        for _ in range(12 * big):
            k = r.choice((data(r, C.es), bytes(C.es), b'\xff' * C.es, data(r, C.es)))
            one('ed_expand', N, k), one('ed_convert', N, k), one('ed_create', N, k)
            one('ed_derive', N, C.enc(r.choice((C.point(r), C.G(sc()), r.choice(tors)))), data(r, C.es))
        for k in range(C.es + 3):
            one('ed_pimport', N, data(r, k))
        pool = C.scalars(r)
        for k in pool:
            b = C.sb(k)
            for op in ('ed_szero', 'ed_sclamp', 'ed_sred', 'ed_sneg', 'ed_sinv', 'ed_from'):
                one(op, N, b)
            for t in r.sample(pool, 2 * big) + [k, -k % n, n - 1]:
                one('ed_sadd', N, b, C.sb(t)), one('ed_smul', N, b, C.sb(t))
        # generated keys
        for _ in range(3 * big):
            one('ed_gen', N, data(r, 32)), one('ed_sgen', N, data(r, 32)), one('ed_grind', N, data(r, 32), r.randrange(2)), one('ed_sgrind', N, data(r, 32), r.randrange(2))
        # decoding
        for b in bad_encodings(C, r):
            for op in ('ed_check', 'ed_export', 'ed_neg', 'ed_small', 'ed_tors', 'ed_inf'):
                one(op, N, b)
            op = r.choice(('ed_tadd', 'ed_tmul', 'ed_add2', 'ed_combine', 'ed_derives'))
            G = C.enc(C.g)
            one(*{'ed_tadd': [op, N, b, C.sb(sc())], 'ed_tmul': [op, N, b, C.sb(sc())], 'ed_add2': [op, N] + r.choice(([b, G], [G, b], [b, b])), 'ed_combine': [op, N] + r.choice(([b], [G, b], [b, G])),
                  'ed_derives': [op, N, b, C.sb(sc())]}[op])
        # coordinates
        for P in tors + [C.point(r) for _ in range(5 * big)]:
            x, y = C.fb(P[0]), C.fb(P[1])
            for a, b in ((x, y), (x, b''), (b'', y), (b'', b''), (y, x), (C.fb(p - P[0]), y), (x, C.fb(p - P[1])), (C.fb(P[0] + 1), y), (x, C.fb(P[1] + 1)), (x + b'\0', y + b'\0\0'), (x + b'\1', y),
                         (x.rstrip(b'\0'), b''), (b'', y.rstrip(b'\0')), (C.fb(P[0] + p), y), (C.fb(P[0] + p), b''), (b'', C.fb(P[1] + p)), (b'\0', b''), (b'', b'\0')):
                for s in (-1, 0, 1):
                    one('ed_import', N, a, b, s)
        # the group, with all torsion
        def point():
            return C.enc(C.add(C.G(r.choice((0, 0, 1, sc()))), r.choice(tors)))
        for T in tors:
            for S in tors:
                one('ed_add2', N, C.enc(T), C.enc(S))
            for t in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, n, n + 1, 2 * n, 256**C.ss - 1, sc(), sc()):
                one('ed_tmul', N, C.enc(T), C.sb(t)), one('ed_tmul', N, C.enc(C.add(C.G(3), T)), C.sb(t)), one('ed_derives', N, C.enc(T), C.sb(t))
            one('ed_tadd', N, C.enc(C.add(T, C.G(n - 5))), C.sb(5))
        for _ in range(30 * big):
            one('ed_tmul', N, point(), C.sb(sc())), one('ed_tadd', N, point(), C.sb(sc())), one('ed_derives', N, point(), C.sb(sc())), one('ed_add2', N, point(), point())
            P = point()
            for op in ('ed_small', 'ed_tors', 'ed_inf', 'ed_neg', 'ed_export'):
                one(op, N, P)
        for t in pool:
            one('ed_tmul', N, C.enc(r.choice((C.g, C.point(r)))), C.sb(t))
        # programs
        for _ in range(25 * big):
            ev = []
            if r.random() < 0.15:
                ev.append(['ed_rand', N, data(r, 32)])
            ev += [['ed_convert', N, data(r, C.es)], ['ed_from', N, '.']]
            for _ in range(r.randrange(4, 12)):
                k = r.randrange(14)
                t = C.sb(sc())
                ev.append([['ed_sadd', N, '.', t], ['ed_smul', N, '.', t], ['ed_sneg', N, '.'], ['ed_sinv', N, '.'], ['ed_sred', N, '.'], ['ed_sclamp', N, '.'], ['ed_from', N, '.'],
                           ['ed_tadd', N, '.', t], ['ed_tmul', N, '.', t], ['ed_neg', N, '.'], ['ed_add2', N, '.', '.'], ['ed_add2', N, '.', point()], ['ed_derives', N, '.', '.'],
                           ['ed_combine', N] + [r.choice(('.', point())) for _ in range(r.randrange(5))]][k])
                if r.random() < 0.2:
                    ev.append([r.choice(('ed_tors', 'ed_small', 'ed_inf', 'ed_check', 'ed_export')), N, '.'])
            tr.append(ev)
        for ks in ([], [1, n - 1], [1, 1, n - 2], [5, 6, n - 11, 1], [1] * 7):
            one('ed_combine', N, *[C.enc(C.G(k)) for k in ks])
        # signing
        for _ in range(16 * big):
            m, (ph, ctx) = data(r, r.choice((0, 1, 32, 63, 64, 200))), inst(r)
            k = r.choice((data(r, C.es), bytes(C.es), b'\xff' * C.es))
            ev = [['ed_rand', N, data(r, 32)]] if r.random() < 0.1 else []
            tr.append(ev + [['ed_sign', N, m, k, ph, ctx]])
            one('ed_signs', N, m, C.sb(sc()), ph, ctx, data(r, C.es))
            one('ed_signa', N, m, k, ph, ctx, C.sb(sc())), one('ed_signm', N, m, k, ph, ctx, C.sb(sc()))
        # verification
        goods, bads = [], []
        ph0, ctx0 = inst(r)
        for i in range(16 * big):
            a, k = r.choice((1, n - 1, 0, sc(), sc(), sc())), r.choice((1, n - 1, 0, sc(), sc()))
            if r.random() < 0.3:
                k = r.choice((a, -a, 2 * a, -2 * a)) % n
            m = data(r, r.choice((0, 1, 32, 70)))
            ph, ctx = (ph0, ctx0) if i % 2 else inst(r)
            for TA, TR in (((0, 1), (0, 1)), (r.choice(tors), r.choice(tors)), (r.choice(tors), r.choice(tors))):
                sg, A = sign(C, a % n, k % n, m, ph, ctx, TA, TR)
                if (ph, ctx) == (ph0, ctx0):
                    goods.append((m, sg, A))
                R, s = sg[:C.es], int.from_bytes(sg[C.es:], 'little')
                S = lambda v: v.to_bytes(C.es, 'little')
                b = [(m, R + S((s + 1) % n), A), (m, R + S(n - s), A), (m, R + S(0), A), (m, R + S(n), A), (m, R + b'\xff' * C.es, A), (m + b'\0', sg, A), (m, C.enc(C.g) + S(s), A),
                     (m, bytes([R[0] ^ 1]) + R[1:] + S(s), A), (m, R + S(s), bytes([A[0] ^ 2]) + A[1:]), (m, R[:-1] + bytes([R[-1] ^ 128]) + S(s), A), (m, sg, A[:-1] + bytes([A[-1] ^ 128])),
                     (m, r.choice(bad_encodings(C, r)) + S(s), A), (m, sg, r.choice(bad_encodings(C, r))), (m, S(s) + R, A)]
                for q in (n, 2 * n, 4 * n, 8 * n, 1 << 253, 1 << (8 * C.es - 1)):
                    if s + q < 256**C.es:
                        b.append((m, R + S(s + q), A))
                if C.es > C.ss:
                    b += [(m, sg[:-1] + b'\1', A), (m, sg[:-1] + b'\x80', A)]
                if (ph, ctx) == (ph0, ctx0):
                    bads += b
                for z in [(m, sg, A)] + (b if vt.THOROUGH else r.sample(b, 6)):
                    one('ed_verify', N, *z, ph, ctx), one('ed_single', N, *z, ph, ctx)
                # another instance
                for o in ((-1, b''), (0, b''), (1, b''), (0, ctx[:-1]), (0, ctx), (1, ctx)):
                    if r.random() < 0.3:
                        one(r.choice(('ed_verify', 'ed_single')), N, m, sg, A, *o)
        # small-order keys and nonces, encoded canonically or not
        enc = []
        top = 1 << (8 * C.es - 1)
        for T in tors:
            enc += [C.enc(T), C.raw(T[1] + top * (1 - T[0] % 2))]
            if T[1] + p < top:
                enc += [C.raw(T[1] + p), C.raw(T[1] + p + top)]
        for _ in range(60 * big):
            R, A, m = r.choice(enc), r.choice(enc), data(r, 4)
            one('ed_verify', N, m, R + bytes(C.es), A, -1, b''), one('ed_single', N, m, R + bytes(C.es), A, -1, b'')
        # batches, all of one instance
        def batch(entries, size=None):
            one('ed_batch', N, size or r.choice((2, 2, 3, 4, 5, 8, 16, 64)), ph0, ctx0, *[y for z in entries for y in z])
        batch([])
        for k in list(range(1, 7)) + [r.randrange(7, 20), 20]:
            batch([r.choice(goods) for _ in range(k)])
        for z in goods + r.sample(bads, min(len(bads), 40 * big)):
            batch([z])
        for _ in range(14 * big):
            k = r.choice((2, 2, 3, 4, 5, 6, 7, 9))
            b = [r.choice(goods) for _ in range(k)]
            for i in r.sample(range(k), r.choice((1, 1, 2, k))):
                b[i] = r.choice(bads)
            batch(b)
        for _ in range(10 * big):
            k = r.choice((2, 3, 4, 6, 8, 10))
            b = [r.choice(goods) for _ in range(k)]
            d = r.choice((1, r.randrange(1, n)))
            i, j = r.sample(range(k), 2)
            size = r.choice((2, 3, 4, 8, 16, 64))
            if r.random() < 0.4:
                size, i = r.choice((2, 4)), 0
                j = min(k - 1, size // 2 * r.choice((1, 2))) or 1
            for t, dd in ((i, d), (j, n - d)):
                m, sg, A = b[t]
                s = (int.from_bytes(sg[C.es:], 'little') + dd) % n
                b[t] = (m, sg[:C.es] + s.to_bytes(C.es, 'little'), A)
            batch(b, size)
        for _ in range(4 * big):
            x, y = r.choice(goods), r.choice(goods)
            batch([(x[0], y[1], x[2]), (y[0], x[1], y[2])]), batch([(x[0], x[1], y[2]), (y[0], y[1], x[2])]), batch([(y[0], x[1], x[2]), (x[0], y[1], y[2])])
            batch([x, x, x]), batch([x, y, x, y], 2)
        for _ in range(6 * big):
            batch([(data(r, 4), r.choice(enc) + bytes(C.es), r.choice(enc)) for _ in range(r.randrange(1, 5))])
    return tr


def check(c):
    c.model('CurveTest')
    c.model('EddsaModel')
    c.run('EddsaTrace', traces(vt.rng('c21')), variants=('w64', 'l32'))
