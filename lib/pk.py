"""Numbers, keys and encodings for the RSA and DSA checks."""
import hashlib
from math import gcd


def prime(n, r=None):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


SMALL = [p for p in range(3, 2000) if prime(p)]


def randprime(r, bits, ok=lambda p: True):
    while True:
        p = r.getrandbits(bits) | 1 | (3 << (bits - 2) if bits > 3 else 1 << (bits - 1))
        if all(p % x for x in SMALL if x < p) and ok(p) and prime(p):
            return p


def lcm(a, b):
    return a * b // gcd(a, b)


def be(n, k=None):
    return n.to_bytes((n.bit_length() + 7) // 8 if k is None else k, 'big')


# ------------------------------------------------------------- encodings

def size(n):
    return bytes([n]) if n < 128 else bytes([129, n]) if n < 256 else bytes([130, n >> 8, n & 255])


def tlv(t, b, sz=size):
    return bytes([t]) + sz(len(b)) + b


def num(n, sz=size):
    b = be(n) or b'\0'
    return tlv(2, b'\0' + b if b[0] & 128 else b, sz)


def seq(v):
    return tlv(48, b''.join(num(x) for x in v))


def vseq(v):
    return tlv(48, b'\2\1\0' + b''.join(num(x) for x in v))


def plain(v):
    return b''.join(be((x.bit_length() + 7) // 8, 2) + be(x) for x in v)


def long1(n):
    return bytes([129, n]) if n < 256 else bytes([131]) + be(n, 3)


def long2(n):
    return bytes([130]) + be(n, 2)


def long4(n):
    return bytes([132]) + be(n, 4)


def malformed(r, parts):
    """Encodings of a sequence of integers with one defect each; parts: the encoded integers."""
    out = []
    i = r.randrange(len(parts))

    def val(p):  # contents of an encoded integer
        return p[2:] if p[1] < 128 else p[2 + p[1] - 128:]

    def with_(x, j=i):
        return parts[:j] + [x] + parts[j + 1:]

    ok = lambda ps: tlv(48, b''.join(ps))
    v = val(parts[i])
    body = b''.join(parts)
    out += [ok(with_(tlv(2, v, f))) for f in (long1, long2, long4)]
    out += [tlv(48, body, f) for f in (long1, long2, long4)]
    out += [ok(with_(tlv(2, b'\0' + v))), ok(with_(tlv(2, b'\0\0' + v)))]
    out += [ok(with_(tlv(2, b''))), ok(with_(b'\2\x80')), ok(with_(b'\2\0'))]
    if v[0] == 0 and len(v) > 1:
        out.append(ok(with_(tlv(2, v[1:]))))              # negative
    out.append(ok(with_(tlv(2, b'\x80' + v))))
    out.append(ok(with_(tlv(2, bytes([v[0] | 128]) + v[1:]))))
    out.append(ok(with_(tlv(r.choice((3, 4, 1, 0x82, 0x22, 48)), v))))
    out += [ok(parts[:i] + parts[i + 1:]), ok(parts + [num(r.getrandbits(64))]), ok(parts) + b'\0', ok(parts) + bytes([r.randrange(256)] * 3)]
    out += [ok(parts + [b'\0']), ok([]), b'', b'\x30', b'\x30\x80' + body, b'\x30\x80' + body + b'\0\0', b'\x31' + ok(parts)[1:]]
    out += [ok(parts)[:-1], ok(parts)[:r.randrange(len(ok(parts)))], ok(parts)[1:]]
    out += [b'\x30' + size(max(0, len(body) + d)) + body for d in (1, -1, 2)]
    out.append(ok(with_(num(0))))
    out.append(ok(with_(num(r.getrandbits(16384) | 1 << 16383))))
    out.append(ok(with_(num(r.getrandbits(16392) | 1 << 16391))))
    out.append(ok(with_(num(r.getrandbits(16385) | 1 << 16384))))
    e = bytearray(ok(parts))
    for _ in range(6):
        x = bytearray(e)
        x[r.choice((r.randrange(len(x)), r.randrange(min(12, len(x)))))] ^= 1 << r.randrange(8)
        out.append(bytes(x))
    e = bytearray(ok(with_(tlv(2, v))))
    # a length byte of one integer altered
    p = len(ok(parts)) - len(body) + sum(len(x) for x in parts[:i])
    for d in (1, -1):
        x = bytearray(e)
        x[p + (1 if x[p + 1] < 128 else 1 + x[p + 1] - 128)] = (x[p + (1 if x[p + 1] < 128 else 1 + x[p + 1] - 128)] + d) & 255
        out.append(bytes(x))
    return out


# ------------------------------------------------------------------- RSA

class Rsa:
    def __init__(self, p, q, e, d=None):
        self.p, self.q, self.e = p, q, e
        self.n = p * q
        self.lam = lcm(p - 1, q - 1)
        self.d = d or pow(e, -1, self.lam)
        self.v = [self.n, e, self.d, p, q, self.d % (p - 1), self.d % (q - 1), pow(q, -1, p)]
        self.k = (self.n.bit_length() + 7) // 8
        self.bits = self.n.bit_length()
        self.pub, self.priv = seq(self.v[:2]), vseq(self.v)

    def raw(self, m):       # private operation on an integer
        return be(pow(m, self.d, self.n), self.k)

    def pubraw(self, m):
        return be(pow(m, self.e, self.n), self.k)


EXPS = (3, 5, 17, 257, 65537, (1 << 32) + 15, (1 << 33) - 1, (1 << 33) - 9, 0xffffffff)


def rsakey(r, bits, e=None, pbits=None, mod4=None):
    e = e or r.choice(EXPS)
    pbits = pbits or (bits + 1) // 2
    ok = lambda p: gcd(p - 1, e) == 1 and (mod4 is None or p % 4 == mod4)
    while True:
        p, q = randprime(r, pbits, ok), randprime(r, bits - pbits, ok)
        if p != q and (p * q).bit_length() == bits:
            return Rsa(p, q, e)


def pss_em_len(bits):
    return (bits - 1 + 7) // 8


def mgf1(h, seed, n):
    t = b''
    i = 0
    while len(t) < n:
        t += hashlib.new(h, seed + be(i, 4)).digest()
        i += 1
    return t[:n]


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def oaep(h, k, label, seed, db=None, msg=b'', first=0, lhash=None, ps=None, sep=1):
    """An OAEP block of k bytes."""
    hl = hashlib.new(h).digest_size
    lh = hashlib.new(h, label).digest() if lhash is None else lhash
    if db is None:
        ps = bytes(k - 2 * hl - 2 - len(msg)) if ps is None else ps
        db = lh + ps + bytes([sep]) + msg
    mdb = xor(db, mgf1(h, seed, len(db)))
    return bytes([first]) + xor(seed, mgf1(h, mdb, hl)) + mdb


# ------------------------------------------------------------------- DSA

class Dsa:
    def __init__(self, p, q, g, x, y=None):
        self.p, self.q, self.g, self.x = p, q, g, x
        self.y = pow(g, x, p) if y is None else y
        self.qs = (q.bit_length() + 7) // 8
        self.params, self.pub, self.priv = seq([p, q, g]), seq([self.y, p, q, g]), vseq([p, q, g, self.y, x])
        self.v = [p, q, g, self.y, x]

    def sig(self, m, k):
        r = pow(self.g, k, self.p) % self.q
        return r, (r * self.x + m) * pow(k, -1, self.q) % self.q


def dsagroup(r, bits, q):
    while True:
        p = q * (r.randrange((1 << (bits - 1)) // q, (1 << bits) // q) & ~1) + 1
        if p.bit_length() == bits and all(p % x for x in SMALL) and prime(p):
            break
    h = 2
    while pow(h, (p - 1) // q, p) == 1:
        h += 1
    return p, q, pow(h, (p - 1) // q, p)


def lowprime(bits):
    """The first prime above 2^(bits-1): half of all candidates exceed it."""
    q = (1 << (bits - 1)) + 1
    while not prime(q):
        q += 2
    return q


def dsakey(r, bits, qbits, low=False):
    q = lowprime(qbits) if low else randprime(r, qbits)
    p, q, g = dsagroup(r, bits, q)
    return Dsa(p, q, g, r.choice((1, 2, q - 1, r.randrange(1, q), r.randrange(1, q), r.randrange(1, q))))


def degenerate(r, n, qbits, c):
    """A usable (not valid) key whose generator has order n in {3,5} with g = c mod q, so that r takes n values."""
    q = randprime(r, qbits)
    gb = max(qbits + 40, 520 // (n - 1) + 2)
    while True:
        g = (r.getrandbits(gb) | 1 << (gb - 1)) // q * q + c
        p = sum(g**i for i in range(n))
        if p.bit_length() >= 512 and all(p % x for x in SMALL) and prime(p):
            x = r.randrange(1, q)
            return Dsa(p, q, g, x, pow(g, 1 + x % (n - 1), p))
