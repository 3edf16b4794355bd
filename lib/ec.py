"""Curve arithmetic for generating inputs (the specification decides what the results should be)."""
from c01 import data


def root(x, p):
    x %= p
    if x == 0:
        return 0
    if pow(x, (p - 1) // 2, p) != 1:
        return None
    if p % 4 == 3:
        return pow(x, (p + 1) // 4, p)
    s, q = 0, p - 1
    while q % 2 == 0:
        s, q = s + 1, q // 2
    z = 2
    while pow(z, (p - 1) // 2, p) == 1:
        z += 1
    m, c, t, r = s, pow(z, q, p), pow(x, q, p), pow(x, (q + 1) // 2, p)
    while t != 1:
        i, u = 0, t
        while u != 1:
            i, u = i + 1, u * u % p
        b = pow(c, 1 << (m - i - 1), p)
        m, c = i, b * b % p
        t, r = t * c % p, r * b % p
    return r


class Wei:
    def __init__(self, name, p, n, a, b, x, y):
        self.name, self.p, self.n, self.a, self.b, self.g = name, p, n, a % p, b, (x, y)
        self.fs, self.ss = (p.bit_length() + 7) // 8, (n.bit_length() + 7) // 8
        self.sb = lambda k: (k % 256**self.ss).to_bytes(self.ss, 'big')
        self.fb = lambda k: (k % 256**self.fs).to_bytes(self.fs, 'big')

    def rhs(self, x):
        return (x * x * x + self.a * x + self.b) % self.p

    def lift(self, x, odd=None):
        y = root(self.rhs(x), self.p)
        if y is None:
            return None
        if odd is not None and y % 2 != odd:
            y = -y % self.p
        return (x, y)

    def neg(self, P):
        return P and (P[0], -P[1] % self.p)

    def add(self, P, Q):
        p = self.p
        if P is None or Q is None:
            return P or Q
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            l = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, p)
        else:
            l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p)
        x = (l * l - P[0] - Q[0]) % p
        return (x, (l * (P[0] - x) - P[1]) % p)

    def mul(self, k, P):
        p, a = self.p, self.a
        k %= self.n
        if P is None or k == 0:
            return None
        X, Y, Z = 0, 1, 0
        x, y = P
        for b in bin(k)[2:]:
            if Z:
                yy = Y * Y % p
                s = 4 * X * yy % p
                zz = Z * Z % p
                m = (3 * X * X + a * zz * zz) % p
                x3 = (m * m - 2 * s) % p
                Z = 2 * Y * Z % p
                X, Y = x3, (m * (s - x3) - 8 * yy * yy) % p
            if b == '1':
                if not Z:
                    X, Y, Z = x, y, 1
                    continue
                zz = Z * Z % p
                h = (x * zz - X) % p
                r = (y * zz * Z - Y) % p
                if h == 0:
                    if r:
                        X, Y, Z = 0, 1, 0
                        continue
                    t = self.add((x, y), (x, y))
                    X, Y, Z = (0, 1, 0) if t is None else (t[0], t[1], 1)
                    continue
                hh = h * h % p
                hhh = hh * h % p
                v = X * hh % p
                x3 = (r * r - hhh - 2 * v) % p
                Y = (r * (v - x3) - Y * hhh) % p
                X, Z = x3, Z * h % p
        if not Z:
            return None
        zi = pow(Z, -1, p)
        return (X * zi * zi % p, Y * zi * zi * zi % p)

    def G(self, k):
        return self.mul(k, self.g)

    def enc(self, P, kind=None, r=None):
        """kind: 2 compressed, 4 uncompressed, 6 hybrid"""
        if kind is None:
            kind = r.choice((2, 2, 4, 6))
        if kind == 2:
            return bytes([2 + P[1] % 2]) + self.fb(P[0])
        return bytes([4 if kind == 4 else 6 + P[1] % 2]) + self.fb(P[0]) + self.fb(P[1])

    def point(self, r):
        while 1:
            P = self.lift(r.randrange(self.p), r.randrange(2))
            if P:
                return P

    def cousins(self, P):
        """The other points with the same y."""
        p, x = self.p, P[0]
        # X^2 + x X + x^2 + a = 0
        w = root(-3 * x * x - 4 * self.a, p)
        if w is None:
            return []
        h = pow(2, -1, p)
        return [((z - x) * h % p, P[1]) for z in {w, -w % p} if (z - x) * h % p != x]

    def scalars(self, r, k=12):
        """Scalars near the limits, with extreme recodings, and random ones."""
        n, bits = self.n, self.n.bit_length()
        pool = [1, 2, 3, 4, 5, 7, 8, 15, 16, 17, n - 1, n - 2, n - 3, n - 16, (n - 1) // 2, (n + 1) // 2, n // 3, n // 2 + 2, n // 15,
                int('5' * (bits // 4), 16), int('a' * (bits // 4), 16) % n, (1 << (bits - 1)) - 1, (1 << (bits - 1)) % n,
                (1 << bits) % n, int('f0' * (bits // 8), 16) % n, int('0f' * (bits // 8), 16) % n, int('7f' * (bits // 8), 16) % n, int('80' * (bits // 8), 16) % n]
        i = r.randrange(bits - 1)
        pool += [1 << i, (1 << i) - 1 or 1, (1 << i) + 1, n - (1 << i), (1 << r.choice((31, 32, 63, 64, 65, 96, 127, 128, 129, 160))), (1 << 128) - 1, r.randrange(1, 1 << 32), r.randrange(1, 1 << 128)]
        if self.name == 'secp256k1':
            l = LAMBDA
            pool += [l, n - l, l + 1, l - 1, l * l % n, (l * (1 << 127) + 1) % n, ((1 << 127) * l + (1 << 127)) % n, (B1 + B2 * l) % n, B1, B2, (B1 >> 1) * l % n, (l * ((1 << 128) - 1)) % n]
        out = [z % n or 1 for z in pool] + [r.randrange(1, n) for _ in range(8)]
        # runs of ones and zeros
        for _ in range(6):
            z = 0
            while z.bit_length() < bits - 40:
                w = r.randrange(1, 40)
                z = z << w | r.choice((0, (1 << w) - 1, 1))
                z = z or 1
            out.append(z % n or 1)
        return out if k is None else [r.choice(out) for _ in range(k)]


LAMBDA = 0x5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72
B1 = 0xe4437ed6010e88286f547fa90abfe4c3
B2 = 0x3086d221a7d46bcde86c90e49284eb15
H = lambda s: int(s, 16)
CURVES = [
    Wei('p192', 2**192 - 2**64 - 1, H('ffffffffffffffffffffffff99def836146bc9b1b4d22831'), -3, H('64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1'),
        H('188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012'), H('07192b95ffc8da78631011ed6b24cdd573f977a11e794811')),
    Wei('p224', 2**224 - 2**96 + 1, H('ffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d'), -3, H('b4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4'),
        H('b70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21'), H('bd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34')),
    Wei('p256', 2**256 - 2**224 + 2**192 + 2**96 - 1, H('ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551'), -3,
        H('5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b'),
        H('6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296'), H('4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5')),
    Wei('p384', 2**384 - 2**128 - 2**96 + 2**32 - 1, H('ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973'), -3,
        H('b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef'),
        H('aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7'),
        H('3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f')),
    Wei('p521', 2**521 - 1, H('01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409'), -3,
        H('51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00'),
        H('c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66'),
        H('11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650')),
    Wei('secp256k1', 2**256 - 2**32 - 977, H('fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141'), 0, 7,
        H('79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798'), H('483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8')),
]


def bad_points(C, r, P=None):
    """Encodings that are not those of a point (and some that are)."""
    P = P or C.point(r)
    x, y = C.fb(P[0]), C.fb(P[1])
    out = [b'', b'\0', b'\2', bytes(1 + C.fs), bytes(1 + 2 * C.fs), b'\2' + x[:-1], b'\2' + x + b'\0', b'\4' + x + y[:-1], b'\4' + x + y + b'\0', b'\2' + x + y, b'\4' + x,
           b'\6' + x, b'\7' + x]
    out += [bytes([k]) + x for k in (0, 1, 2, 3, 4, 5, 8, 0x82, 255)]
    out += [bytes([k]) + x + y for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, 0x84, 255)]
    while 1:
        z = r.randrange(C.p)
        if C.lift(z) is None:
            break
    out += [b'\2' + C.fb(z), b'\3' + C.fb(z), b'\4' + C.fb(z) + y, b'\4' + x + C.fb(P[1] + 1), b'\4' + x + C.fb(-P[1] % C.p), b'\4' + y + x, b'\4' + x + bytes(C.fs), b'\6' + x + C.fb(z)]
    # coordinates not below p: congruent to valid ones where they fit
    m = 256**C.fs
    for k in range(60):
        if C.lift(k) and k + C.p < m:
            Q = C.lift(k)
            out += [bytes([2 + Q[1] % 2]) + C.fb(k + C.p), bytes([2 + Q[1] % 2]) + C.fb(k), b'\4' + C.fb(k + C.p) + C.fb(Q[1])]
            if Q[1] + C.p < m:
                out.append(b'\4' + C.fb(k) + C.fb(Q[1] + C.p))
            break
    out += [bytes([k]) + C.fb(v) for k in (2, 3) for v in (0, 1, C.p - 1, C.p, C.p + 1, C.p + 2, m - 1) if v < m]
    if C.fs * 8 > C.p.bit_length():
        out += [bytes([2 + P[1] % 2]) + C.fb(P[0] + (1 << C.p.bit_length())), b'\4' + x + C.fb(P[1] + (1 << C.p.bit_length()))]
    return out


class Ed:
    def __init__(self, name, p, n, a, d, g, h, bits, es, dom, always):
        self.name, self.p, self.n, self.a, self.d, self.g, self.h, self.bits, self.es = name, p, n, a % p, d % p, g, h, bits, es
        self.fs, self.ss, self.dom, self.always = (p.bit_length() + 7) // 8, (p.bit_length() + 7) // 8, dom, always
        self.sb = lambda k: (k % 256**self.ss).to_bytes(self.ss, 'little')
        self.fb = lambda k: (k % 256**self.fs).to_bytes(self.fs, 'little')

    def add(self, P, Q):
        p = self.p
        m = self.d * P[0] * Q[0] % p * P[1] * Q[1] % p
        i = pow((1 + m) * (1 - m), -1, p)
        return ((P[0] * Q[1] + P[1] * Q[0]) * i * (1 - m) % p, (P[1] * Q[1] - self.a * P[0] * Q[0]) * i * (1 + m) % p)

    def neg(self, P):
        return (-P[0] % self.p, P[1])

    def mul(self, k, P):
        if k < 0:
            return self.mul(-k, self.neg(P))
        p, a, d = self.p, self.a, self.d
        X, Y, Z = 0, 1, 1
        x, y = P
        for b in bin(k)[2:]:
            # projective doubling and mixed addition
            B = (X + Y) * (X + Y)
            C, D = X * X % p, Y * Y % p
            E = a * C % p
            F = (E + D) % p
            J = (F - 2 * Z * Z) % p
            X, Y, Z = (B - C - D) * J % p, F * (E - D) % p, F * J % p
            if b == '1':
                B = Z * Z % p
                C, D = X * x % p, Y * y % p
                E = d * C * D % p
                F, G = B - E, B + E
                X, Y, Z = Z * F * ((X + Y) * (x + y) - C - D) % p, Z * G * (D - a * C) % p, F * G % p
        i = pow(Z, -1, p)
        return (X * i % p, Y * i % p)

    def G(self, k):
        return self.mul(k % self.n, self.g)

    def fromy(self, y, odd=None):
        y %= self.p
        x = root((y * y - 1) * pow(self.d * y * y - self.a, -1, self.p), self.p)
        if x is None:
            return None
        if odd is not None and x % 2 != odd:
            x = -x % self.p
        return (x, y)

    def enc(self, P):
        return (P[1] + ((P[0] & 1) << (8 * self.es - 1))).to_bytes(self.es, 'little')

    def raw(self, v):
        return (v % 256**self.es).to_bytes(self.es, 'little')

    def point(self, r):
        while 1:
            P = self.fromy(r.randrange(self.p), r.randrange(2))
            if P:
                return P

    def torsion(self):
        """All points of small order."""
        if not hasattr(self, 'tors'):
            import random
            r = random.Random(1)
            while 1:
                T = self.mul(self.n, self.point(r))
                S, k = T, 1
                L = [(0, 1)]
                while S != (0, 1):
                    L.append(S)
                    S = self.add(S, T)
                if len(L) == self.h:
                    self.tors = L
                    break
        return self.tors

    def rist(self, P):
        """The encoding of P as an element of the prime-order group."""
        p = self.p
        ab = lambda x: -x % p if x % 2 else x
        if P[0] == 0 or (self.h == 8 and P[1] == 0):
            return self.fb(0)
        if self.h == 8 and P[0] * P[1] % p % 2:
            P = self.add(P, (root(pow(self.a, -1, p), p), 0))
        y = -P[1] if P[0] % 2 else P[1]
        return self.fb(ab(root(-self.a * (1 - y) * pow(1 + y, -1, p) % p, p)))

    def scalars(self, r, k=None):
        n, b = self.n, 8 * self.ss
        out = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, n - 1, n, n + 1, n - 2, n - 8, n + 8, 2 * n, 2 * n - 1, 2 * n + 1, 3 * n, 4 * n, 4 * n - 1, 7 * n, 8 * n - 1, 8 * n, 8 * n + 1, 15 * n, 16 * n,
               (1 << b) - 1, 1 << (b - 1), (1 << (b - 1)) - 1, 1 << self.bits, (1 << self.bits) - 1, 1 << (self.bits - 1), 1 << n.bit_length(), (1 << n.bit_length()) - 1, 1 << (n.bit_length() - 1),
               int('f0' * self.ss, 16), int('0f' * self.ss, 16), int('80' * self.ss, 16), int('7f' * self.ss, 16), int('aa' * self.ss, 16), int('55' * self.ss, 16), (n - 1) // 2, (n + 1) // 2]
        q = (1 << b) // n
        out += [q * n, q * n - 1, q * n + 1, (q - 1) * n]
        i = r.randrange(b)
        out += [1 << i, (1 << i) - 1, (1 << i) + 1, r.randrange(1 << 64)]
        out = [z for z in out if z < 1 << b] + [r.randrange(1 << b) for _ in range(10)] + [r.randrange(n) for _ in range(10)]
        return out if k is None else [r.choice(out) for _ in range(k)]


EDS = [
    Ed('ed25519', 2**255 - 19, 2**252 + 27742317777372353535851937790883648493, -1, H('52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3'),
       (H('216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a'), H('6666666666666666666666666666666666666666666666666666666666666658')), 8, 255, 32,
       b'SigEd25519 no Ed25519 collisions', False),
    Ed('ed448', 2**448 - 2**224 - 1, H('3fffffffffffffffffffffffffffffffffffffffffffffffffffffff7cca23e9c44edb49aed63690216cc2728dc58f552378c292ab5844f3'), 1, -39081,
       (H('4f1970c66bed0ded221d15a622bf36da9e146570470f1767ea6de324a3d3a46412ae1af72ab66511433b80e18b00938e2626a82bc70cc05e'),
        H('693f46716eb6bc248876203756c9c7624bea73736ca3984087789c1e05a0c2d73ad3ff1ce67c39c4fdbd132c4ed7c8ad9808795bf230fa14')), 4, 448, 57, b'SigEd448', True),
    Ed('ed1174', 2**251 - 9, H('01fffffffffffffffffffffffffffffff77965c4dfd307348944d45fd166c971'), 1, -1174,
       (H('037fbb0cea308c479343aee7c029a190c021d96a492ecd6516123f27bce29eda'), H('06b72f82d47fb7cc6656841169840e0c4fe2dee2af3f976ba4ccb1bf9b46360e')), 4, 251, 32, b'SigEd1174', True),
]


def bad_encodings(C, r):
    """Encodings that are not canonical ones (and some that are)."""
    top = 1 << (8 * C.es - 1)
    ys = [0, 1, 2, 3, 4, 5, 6, C.p - 1, C.p - 2, C.p, C.p + 1, C.p + 2, C.p + 3, C.p + 4, 2 * C.p - 1, 2 * C.p, 2 * C.p + 1, top - 1, top - 2, 1 << C.bits, (1 << C.bits) - 1, (1 << C.bits) + 1,
          1 << (C.bits - 1), r.randrange(C.p), r.randrange(C.p), r.randrange(top)]
    ys += [T[1] for T in C.torsion()] + [T[1] + C.p for T in C.torsion()]
    for _ in range(3):
        y = C.point(r)[1]
        ys += [y, y + (1 << C.bits), y + (1 << (8 * C.es - 2)), y + C.p]
    return [C.raw(y + s) for y in ys if y < top for s in (0, top)]


class Mt:
    def __init__(self, name, p, n, A, u, h, bits):
        self.name, self.p, self.n, self.A, self.u, self.h, self.bits, self.fs = name, p, n, A, u, h, bits, (bits + 7) // 8
        self.fb = lambda k: (k % 256**self.fs).to_bytes(self.fs, 'little')

    def rhs(self, u):
        return (u * u * u + self.A * u * u + u) % self.p

    def mul(self, k, u):
        """The ladder; None for infinity."""
        p, a24 = self.p, (self.A - 2) // 4
        x2, z2, x3, z3 = 1, 0, u, 1
        for b in bin(k)[2:]:
            if b == '1':
                x2, z2, x3, z3 = x3, z3, x2, z2
            a, c = x2 + z2, x2 - z2
            aa, cc = a * a % p, c * c % p
            e, d, g = aa - cc, (x3 - z3) * a, (x3 + z3) * c
            x2, z2, x3, z3 = aa * cc % p, e * (aa + a24 * e) % p, (d + g) * (d + g) % p, u * (d - g) * (d - g) % p
            if b == '1':
                x2, z2, x3, z3 = x3, z3, x2, z2
        return x2 * pow(z2, -1, p) % p if z2 else None

    def small(self):
        """u-coordinates of small order on the curve and on the twist."""
        if not hasattr(self, 'smalls'):
            import random
            r = random.Random(2)
            out = {0, 1, self.p - 1}
            nt = (2 * self.p + 2 - self.h * self.n) // 4
            for _ in range(60):
                u = r.randrange(self.p)
                m = self.mul(self.n if root(self.rhs(u), self.p) is not None else nt, u)
                if m is not None:
                    out.add(m)
            self.smalls = sorted(out)
        return self.smalls


MTS = [Mt('x25519', EDS[0].p, EDS[0].n, 486662, 9, 8, 255), Mt('x448', EDS[1].p, EDS[1].n, 156326, 5, 4, 448)]
