"""C24: maps from uniform bytes to keys and back."""
import vt
from c01 import data
from ec import EDS, MTS, CURVES, bad_encodings, bad_points, root

ZS = {'p192': -5, 'p224': 31, 'p256': -10, 'p384': -12, 'p521': -4}
SC = 0x0a2d2ba93507f1df233770c2a797962cc61f6d15da14ecd47d8d27ae1cd5f852
EDC = {'ed25519': (0x0f26edf460a006bbd27b08dc03fc4f7ec5a1d3d14b7d1a82cc6e04aaff457e06, 0, 2),
       'ed448': (0x4136d02f925d530d4b1d9e178310f2cbdd18a3e7c3a767a848e6db198c3d06311e725a0db991d0c6c3d1120f0efa59f54bf38e82b0e1e028, 1, -1),
       'ed1174': (0x005a7a03fb02f7195e441cd2e3f708f96f8ffbe8359548ba8276ace6bbe7dfd2, 1, -1)}


def roots(xs, p):
    """Both roots of those that are squares."""
    return [v for x in xs for y in [root(x % p, p)] if y is not None for v in (y, -y % p)]


def field(r, p, size, special, be, n):
    """Byte strings of field elements: special ones, with and without unused bits, not reduced, random."""
    bits = p.bit_length()
    vs = [0, 1, 2, 3, p - 1, p - 2] + special + [r.randrange(p) for _ in range(n)]
    out = []
    for v in vs:
        for x in (v, v + p):
            if x >> bits == 0:
                out.append(x)
    out += [(1 << bits) - 1, 1 << (bits - 1)]
    hi = 8 * size - bits
    if hi:
        out += [v | r.randrange(1, 1 << hi) << bits for v in out]
    return [v.to_bytes(size, 'big' if be else 'little') for v in out]


def mont_points(p, A, B, z, us):
    """Images of us under Elligator 2 with both signs."""
    out = []
    for u in us:
        d = (1 + z * u * u) % p or 1
        x = -A * pow(d, -1, p) % p
        g = lambda x: (x * x * x + A * x * x + B * x) % p
        if root(g(x), p) is None:
            x = (-x - A) % p
        y = root(g(x), p)
        out += [(x, y), (x, -y % p)]
    return out


def check(c):
    c.model('CurveTest')
    c.model('RistrettoModel')
    c.model('MapsModel')
    r = vt.rng('c24')
    big = 4 if vt.THOROUGH else 1
    tr = []
    one = lambda *e: tr.append([list(e)])
    tops = lambda: r.choice((0, 255, r.randrange(256), 128, 1, 254))
    for C in CURVES:
        N, p = C.name, C.p
        inv = lambda x: pow(x, -1, p)
        if C.a % p:
            z = ZS[N]
            special = roots([-inv(z)], p)
            xs = [-C.b * inv(C.a), C.b * inv(z * C.a), -C.b * inv(z * C.a), C.b * inv(C.a), 0]
        else:
            g = (1 + C.b) % p
            special = roots([-g], p)
            i2 = inv(2)
            xs = [(SC - 1) * i2, -(SC + 1) * i2, 1, (SC + 1) * i2, 0, -1, SC, -SC]
        us = field(r, p, C.fs, special, True, 10 * big)
        for b in us:
            one('wm_map', N, b, r.randrange(2)), one('xm_map', N, b)
            u = int.from_bytes(b, 'big') % (1 << p.bit_length()) % p
            for o in (b, (-u % p).to_bytes(C.fs, 'big'), r.choice(us)):
                one('wm_hash', N, b + o, r.randrange(2))
            one('xm_hash', N, b + r.choice(us))
            one('xm_hash', N, b + r.choice((b, (-u % p).to_bytes(C.fs, 'big'))))
        # preimages: of exceptional points, random points
        pts = [P for x in xs for P in (C.lift(x % p, 0), C.lift(x % p, 1)) if P]
        pts += [C.point(r) for _ in range(24 * big)] + [C.G(k) for k in (1, 2, 3)]
        for P in pts:
            one('wm_tou', N, C.enc(P, r.choice((2, 4))), r.randrange(16), tops())
            x = P[0].to_bytes(C.fs, 'big')
            if r.random() < 0.6:
                one('xm_tou', N, x, r.randrange(16), tops())
        for P in pts[:10] + r.sample(pts, 3 * big):
            one('wm_toh', N, C.enc(P, r.choice((2, 4))), r.randrange(16), data(r, 32))
            one('xm_toh', N, P[0].to_bytes(C.fs, 'big'), r.randrange(16), data(r, 32))
        for b in bad_points(C, r):
            one('wm_tou', N, b, 0, 0)
            if r.random() < 0.1:
                one('wm_toh', N, b, 0, data(r, 32))
        for v in (p, p + 1, 0, 1, 2, 3, 4, 5, 256**C.fs - 1):
            if v < 256**C.fs:
                one('xm_tou', N, v.to_bytes(C.fs, 'big'), 0, 0)
    for C in MTS:
        N, p = C.name, C.p
        z = 2 if N == 'x25519' else -1
        special = roots([-pow(z, -1, p)], p)
        for b in field(r, p, C.fs, special, False, 12 * big):
            one('mm_map', N, b)
            u = int.from_bytes(b, 'little') % (1 << C.bits) % p
            for o in (b, C.fb(-u % p), data(r, C.fs)):
                one('mm_hash', N, b + o, r.randrange(2))
        us = [0, -C.A % p, C.A, 1, p - 1, C.u, 4] + C.small() + [x for x, _ in mont_points(p, C.A, 1, z, special + [r.randrange(p) for _ in range(12 * big)])] + [r.randrange(p) for _ in range(6 * big)]
        for u in us:
            for s in [0, r.randrange(16)]:
                one('mm_tou', N, C.fb(u), s, tops())
            if r.random() < 0.3:
                one('mm_toh', N, C.fb(u), r.randrange(16), data(r, 32))
    for C in EDS:
        N, p = C.name, C.p
        c0, i0, z = EDC[N]
        A = 2 * (C.a + C.d) * pow(C.d - C.a if i0 else C.a - C.d, -1, p) % p
        B = (A - 2 if i0 else A + 2) * pow(C.a * c0 * c0, -1, p) % p
        special = roots([-pow(z, -1, p)], p)
        fs = field(r, p, C.fs, special, False, 12 * big)
        for b in fs:
            one('em_map', N, b), one('rm_map', N, b)
            u = int.from_bytes(b, 'little') % (1 << C.bits) % p
            for o in (b, C.fb(-u % p), r.choice(fs)):
                one('em_hash', N, b + o, r.randrange(2)), one('rm_hash', N, b + o)
        # points: images of special and random numbers with both signs, small order, the neutral one
        pts = C.torsion() + [C.g]
        A0, B0 = A * pow(B, -1, p) % p, pow(B * B, -1, p)
        for x, y in mont_points(p, A0, B0, z, [0] + special + [r.randrange(p) for _ in range(8 * big)]) + [(-A0 % p, y) for y in roots([-A0 * B0], p)]:
            u, v = x * B % p, y * B % p
            if v:
                pts.append((c0 * u * pow(v, -1, p) % p, (u + 1) * pow(u - 1, -1, p) % p if i0 else (u - 1) * pow(u + 1, -1, p) % p))
        pts += [C.point(r) for _ in range(8 * big)]
        for P in pts:
            one('em_tou', N, C.enc(P), 0, tops())
        for P in pts:
            one('em_tou', N, C.enc(P), r.randrange(16), tops())
        for _ in range(2 * big):
            # all subgroups
            P = C.point(r)
            t = [['em_tou', N, C.enc(C.point(r)), s, tops()] for s in range(16) for _ in range(3)]
            r.shuffle(t)
            t += [['em_toh', N, C.enc(C.point(r)), s, data(r, 32)] for s in range(16)]
            tr.append(t)
        for P in C.torsion() + [C.g, C.point(r)]:
            one('em_toh', N, C.enc(P), r.randrange(16), data(r, 32))
        for b in bad_encodings(C, r):
            one('em_tou', N, b, 0, 0)
        # elements of the prime-order group
        q = 0x2b8324804fc1df0b2b4d00993dfbd7a72f431806ad2fe478c4ee1b274a0ea0b0 if C.h == 8 else p - 1
        rs = [C.rist((0, 1)), C.rist(C.g)] + [C.rist(C.G(r.randrange(C.n))) for _ in range(12 * big)]
        for e in rs:
            for s in (0, 1, r.randrange(16)):
                one('rm_tou', N, e, s, tops())
            one('rm_toh', N, e, 0, data(r, 32))
        # images of the exceptional numbers (found by mapping in the first step of a trace)
        for u in [0, 1] + roots([x * pow(q, -1, p) for x in (-1, C.a * pow(C.d, -1, p), C.d * pow(C.a, -1, p))], p):
            P = rmap(C, q, u)
            if P:
                for s in (0, 1):
                    one('rm_tou', N, C.rist(P), s, tops())
        for k in range(16):
            one('rm_tou', N, C.fb(r.choice((k, p - k, p + k, r.randrange(p)))), 0, 0)
    c.run('MapsTrace', tr, variants=('w64', 'l32', 'w32'))


def rmap(C, q, u):
    p, a, d = C.p, C.a, C.d
    sad = {'ed25519': 0x376931bf2b8348ac0f3cfcc931f5d1fdaf9d8e0c1b7854bd7e97f6a0497b2e1b,
           'ed448': 0x12fec0c0b25b7a49443b8748734adcac4628c5f656a49f7b424d977051e65ca6f14c065a189aabdeea38888db42b4f0179d2e21836749f46,
           'ed1174': 0x005cfbdd72b1ed482aafda05d692e7907911649907e797f998a6347bc55dd8a7}[C.name]
    i = q * u * u % p
    w = (d * i - a) * (a * i - d) % p
    if w == 0:
        return (0, 1)
    t = a * (i + 1) * (d + a) * (d - a) * pow(w, -1, p) % p
    s, c0 = root(t, p), -1
    if s is None:
        s, c0 = root(i * t % p, p), i
        s = s if s % 2 else -s % p
    elif s % 2:
        s = -s % p
    nt = (c0 * (i - 1) * (d + a)**2 - w) % p
    if nt == 0 or (1 - a * s * s) % p == 0:
        return None
    return (2 * s * w * pow(nt * sad, -1, p) % p, (1 + a * s * s) * pow(1 - a * s * s, -1, p) % p)
