"""C18: ECDSA."""
import vt
from c01 import data
from ec import CURVES, bad_points
from pk import malformed, num, seq


def digests(r, C):
    n, ss = C.n, C.ss
    bits = n.bit_length()
    up = 8 * ss - bits      # n occupies the high bits of the digest
    out = [data(r, k) for k in (0, 1, ss - 1, ss, ss, ss + 1, 20, 32, 48, 64, 100)]
    for v in (0, 1, n - 1, n, n + 1, (1 << bits) - 1, 1 << (bits - 1), n // 2, (1 << 64) - 1):
        if v < 1 << bits:
            out += [C.sb(v << up), C.sb(v << up) + data(r, r.randrange(1, 9))]
    out += [b'\0' * ss, b'\xff' * ss, b'\xff' * (ss - 1), b'\xff' * (ss + 3), b'\0' * (ss - 1) + b'\1', b'\0' * ss + b'\1']
    return out


def reduce(C, m):
    b = m[:C.ss]
    x = 8 * len(b) - C.n.bit_length()
    v = int.from_bytes(b, 'big')
    return (v >> x if x > 0 else v) % C.n


def low(C, s):
    return s if s <= C.n // 2 else C.n - s


def check(c):
    c.model('CurveTest')
    c.model('EcdsaModel')
    r = vt.rng('c18')
    big = 4 if vt.THOROUGH else 1
    tr = []
    for C in CURVES:
        n, p, N = C.n, C.p, C.name
        two = lambda a, b: C.sb(a) + C.sb(b)
        blinded = lambda ev: [['ec_rand', N, data(r, 32)]] + ev if ev[0][0] in ('ec_sign', 'ec_verify', 'ec_recover') and r.random() < 0.1 else ev
        add = lambda *e: tr.append(blinded([list(e)]))
        add('ec_size', N)
        # signing
        ds = digests(r, C)
        for k in C.scalars(r, 16 * big) + [0, n, n + 1, 256**C.ss - 1, 1, n - 1]:
            if k < 256**C.ss:
                for m in r.sample(ds, 2):
                    add('ec_sign', N, m, C.sb(k), r.choice((0, 0, 0, 1, 2)))
        k = C.scalars(r, 1)[0]
        tr.append([['ec_sign', N, m, C.sb(k), 0] for m in ds] + [['ec_rand', N, data(r, 32)]] + [['ec_sign', N, m, C.sb(k), 0] for m in ds[:5]])
        # verification of u1 G + u2 A for chosen u1, u2, a
        cases = []
        for _ in range(14 * big):
            a, u1, u2 = C.scalars(r, 3)
            w = r.randrange(9)
            if w == 0:
                u1 = 0
            if w == 1:
                u1 = u2 * a % n           # equal points
            if w == 2:
                u1 = -u2 * a % n          # sum at infinity
            if w == 3:
                a = 1
            if w == 4:
                a = n - 1
            if w == 5:
                u1 = (1 - u2 * a) % n     # R = G
            A = C.G(a)
            R = C.G(u1 + u2 * a)
            x = R[0] if R else r.choice((C.g[0], 1, A[0]))
            cases.append((A, R, x, u1, u2))
        # points with x in n..p-1, and with x small: found, not computed from a nonce
        xs = []
        for start in (n, p - 1, n + r.randrange(p - n), 1, p - n - 1, p - n, p - n + 1):
            x = start
            for _ in range(200):
                if C.lift(x % p) and x % p:
                    xs.append(x % p)
                    break
                x += 1 if start not in (p - 1, p - n - 1) else -1
        for x in xs:
            for odd in (0, 1):
                R = C.lift(x, odd)
                rr = x % n
                if rr == 0:
                    continue
                s, m = low(C, r.randrange(1, n)), r.choice((0, 1, n - 1, r.randrange(n)))
                i = pow(rr, -1, n)
                A = C.add(C.mul(s * i, R), C.G(-m * i))
                if A:
                    d = C.sb(m << (8 * C.ss - n.bit_length()))
                    add('ec_verify', N, d, two(rr, s), C.enc(A, r=r))
                    add('ec_verify', N, d, two(rr, n - s), C.enc(A, r=r))
                    if x < 256**C.ss:
                        add('ec_verify', N, d, two(x, s), C.enc(A, r=r))
                    for h in range(4):
                        add('ec_recover', N, d, two(rr, s), h, r.randrange(2))
                    # the other x with the same r has another key
                    add('ec_verify', N, d, two(rr, s), C.enc(C.neg(A), r=r))
                    o = (rr + n) if rr == x and rr + n < p else rr if rr != x else None
                    Q = o and C.lift(o, odd)
                    if Q:
                        B = C.add(C.mul(s * i, Q), C.G(-m * i))
                        B and add('ec_verify', N, d, two(rr, s), C.enc(B, r=r))
        for A, R, x, u1, u2 in cases:
            rr = x % n
            if rr == 0:
                continue
            s = rr * pow(u2, -1, n) % n
            m = u1 * s % n
            d = C.sb(m << (8 * C.ss - n.bit_length()))
            sg = two(rr, low(C, s))
            add('ec_verify', N, d, sg, C.enc(A, r=r))
            for h in range(4):
                add('ec_recover', N, d, sg, h, r.randrange(2))
            bad = [two(rr, n - low(C, s)), two(0, s), two(rr, 0), two(0, 0), two(n, low(C, s)), two(rr, n), two(low(C, s), rr), two(rr ^ 1, low(C, s)), two(rr, low(C, s) ^ 1),
                   two(1, 1), two(n - 1, n // 2), two(rr, n // 2), two(rr, n // 2 + 1), two(rr, 1), b'\xff' * (2 * C.ss), two(n + 1, 1)]
            for z in (rr + n, low(C, s) + n):
                if z < 256**C.ss:
                    bad += [two(z, low(C, s)), two(rr, z)]
            for z in bad if vt.THOROUGH else r.sample(bad, 5):
                add('ec_verify', N, d, z, C.enc(A, r=r))
                add('ec_recover', N, d, z, r.randrange(4), r.randrange(2))
            t = bytearray(d)
            t[r.randrange(len(t))] ^= 1 << r.randrange(8)
            for z in (bytes(t), d + data(r, 2), d[:-1], b'\0' + d, d.lstrip(b'\0')):
                add('ec_verify', N, z, sg, C.enc(A, r=r))
            if m + n < 1 << n.bit_length():
                add('ec_verify', N, C.sb((m + n) << (8 * C.ss - n.bit_length())), sg, C.enc(A, r=r))
            add('ec_verify', N, d, sg, C.enc(C.neg(A), r=r))
            add('ec_verify', N, d, sg, C.enc(C.add(A, C.g) or A, r=r))
        # a valid signature with keys that are not points
        A, R, x, u1, u2 = cases[0]
        s = low(C, x * pow(u2, -1, n) % n)
        d = C.sb(u1 * x * pow(u2, -1, n) % n << (8 * C.ss - n.bit_length()))
        for z in bad_points(C, r, A):
            add('ec_verify', N, d, two(x % n, s), z)
        # recovery that meets infinity, and of arbitrary values
        for _ in range(6 * big):
            k = C.scalars(r, 1)[0]
            R = C.G(k)
            s = low(C, C.scalars(r, 1)[0])
            d = C.sb(r.choice((s * k, -s * k)) % n << (8 * C.ss - n.bit_length()))
            for h in (0, 1):
                R[0] % n and add('ec_recover', N, d, two(R[0] % n, s), h, 1)
            d = data(r, C.ss)
            sg = two(r.randrange(n), low(C, r.randrange(n)))
            for h in range(4):
                add('ec_recover', N, d, sg, h, r.randrange(2))
        # encodings of signatures
        vals = [0, 1, 127, 128, 255, 256, n - 1, n, n + 1, n // 2, n // 2 + 1, 256**C.ss - 1, r.randrange(n), r.randrange(n) >> 9, r.randrange(n) >> r.randrange(n.bit_length())]
        for _ in range(16 * big):
            v = [r.choice(vals) for _ in '12']
            add('ec_sigimp', N, seq(v)), add('ec_siglax', N, seq(v))
            if max(v) < 256**C.ss:
                for op in ('ec_sigexp', 'ec_norm', 'ec_low'):
                    add(op, N, two(*v))
        for v in ((r.randrange(n), r.randrange(n)), (r.randrange(n) >> 8, 0), (0, 1)):
            for m in malformed(r, [num(z) for z in v]) + lax(r, v, C):
                add('ec_sigimp', N, m), add('ec_siglax', N, m)
    c.run('EcdsaTrace', tr, variants=('w64', 'l32'))


def lax(r, v, C):
    """Encodings of the values with the liberties that lax parsing takes, and beyond."""
    out = []
    def ln(k, w):
        if w == 0:
            return bytes([k]) if k < 128 else b'\x81' + bytes([k])
        return bytes([128 + w]) + k.to_bytes(w, 'big')
    def it(z, pad, w):
        b = b'\0' * pad + (z.to_bytes((z.bit_length() + 7) // 8, 'big'))
        return b'\2' + ln(len(b), w) + b
    for w in (0, 1, 2, 3, 4, 5, 9):
        for pad in (0, 1, 2, 9):
            body = it(v[0], pad, w) + it(v[1], r.randrange(3), r.choice((0, w)))
            out.append(b'\x30' + ln(len(body) if len(body) < 256 else 200, r.choice((1, 2, 3, 4, 5))) + body)
    body = it(v[0], 1, 0) + it(v[1], 1, 0)
    for h in (b'\x30\x00', b'\x30\x80', b'\x30\xff', b'\x30\x7f', b'\x30\x84\xff\xff\xff\xff', b'\x30\x85\0\0\0\0\1', b'\x30\x85\1\0\0\0\0', b'\x30\x85\0\xff\0\0\0', b'\x31\x10', b'\x30', b'\x30\x81'):
        out.append(h + body)
        out.append(h + body + b'\0\1\2')
    out += [b'\x30\x10' + body[:k] for k in range(0, len(body), 5)]
    out += [b'\x30\x10\2\x80\2\x80', b'\x30\x10\2\0\2\0', b'\x30\6\2\1\xff\2\1\x80', b'\x30\x10\2\x84\1\0\0\0\2\1\1', b'\x30\x10\2\x84\xff\xff\xff\xff\2\1\1', b'\x30\x10\2\x85\1\0\0\0\0',
            b'\x30\x10\2\x84\x00\0\0\1\1\2\1\2', b'\x30\x10\2\x83\x80\0\0\1\1\2\1\2']
    return out
