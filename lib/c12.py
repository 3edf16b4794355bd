"""C12: bech32 and cashaddr."""
import vt
from c01 import data

AB = b'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
CSZ = (20, 24, 28, 32, 40, 48, 56, 64)
LOW = bytes(range(97, 123))
PRINT = bytes(x for x in range(33, 127) if not 65 <= x <= 90)


def conv(b, f, t):
    acc = n = 0
    out = []
    for x in b:
        acc = acc << f | x
        n += f
    pad = -n % t
    acc <<= pad
    n += pad
    return bytes(acc >> (n - t * (i + 1)) & (1 << t) - 1 for i in range(n // t))


def bpoly(vals):
    c = 1
    for v in vals:
        b = c >> 25
        c = (c & 0x1ffffff) << 5 ^ v
        for i, g in enumerate((0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)):
            if b >> i & 1:
                c ^= g
    return c


def bser(h, d, chk):
    """a text with a correct checksum, whatever the parts are"""
    m = bpoly([x >> 5 for x in h] + [0] + [x & 31 for x in h] + list(d) + [0] * 6) ^ chk
    return bytes(h) + b'1' + bytes(AB[x & 31] for x in list(d) + [m >> 5 * (5 - i) for i in range(6)])


def cser(p, d, sep=True):
    c = 1
    for v in [x & 31 for x in p] + [0] + list(d) + [0] * 8:
        b = c >> 35
        c = (c & 0x7ffffffff) << 5 ^ v
        for i, g in enumerate((0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470)):
            if b >> i & 1:
                c ^= g
    c ^= 1
    return (bytes(p) + b':' if sep else b'') + bytes(AB[x & 31] for x in list(d) + [c >> 5 * (7 - i) for i in range(8)])


def mutate(r, s):
    s = bytearray(s)
    for _ in range(r.choice((1, 1, 2, 3))):
        m, p = r.randrange(8), r.randrange(len(s) + 1)
        if m == 0:
            s.insert(p, r.choice(AB + b'1:A0b'))
        elif m == 1 and s:
            del s[p - 1]
        elif m == 2 and p:
            s[p - 1] = r.choice(AB)
        elif m == 3 and p:
            s[p - 1] = r.randrange(1, 256)
        elif m == 4 and p:
            s[p - 1] ^= 0x20
        elif m == 5 and p:
            s = s[:p]
        elif m == 6 and len(s) > 1:
            i = r.randrange(len(s) - 1)
            s[i], s[i + 1] = s[i + 1], s[i]
        elif m == 7:
            s = bytearray(bytes(s).swapcase())
    return bytes(s)


def hrp(r, n=None):
    n = n if n is not None else r.choice((1, 2, 2, 3, 4, 10, 82, 83, r.randrange(1, 84)))
    a = r.choice((LOW, PRINT, b'1a', b'bc'))
    return bytes(r.choice(a) for _ in range(n))


def pre(r, n=None):
    n = n if n is not None else r.choice((1, 2, 6, 11, 82, 83, r.randrange(1, 84)))
    return r.choice((b'bitcoincash', bytes(r.choice(LOW) for _ in range(n))))


def syms(r, n):
    return bytes(r.choice((0, 31, r.randrange(32), r.randrange(32))) for _ in range(n))


def check(c):
    r = vt.rng('c12')
    tr = []
    k = 8 if vt.THOROUGH else 2
    K = lambda: r.choice((1, 1, 0x2bc830a3, 0x2bc830a3, 0, 2, 0x3fffffff, r.getrandbits(30)))
    ck = lambda x: x.to_bytes(4, 'big')
    add = lambda *e: tr.append([list(e)])
    # -- bech32 --
    for n in range(0, 90):
        for d in range(0, 84, 1 if vt.THOROUGH else 5):
            x = K()
            if abs(n + d - 83) < 4 or r.random() < .12:
                add('b3_ser', hrp(r, n), syms(r, d), ck(x))
                add('b3_des', bser(hrp(r, n), syms(r, d), x), ck(x))
                add('b3_des', bser(hrp(r, n), syms(r, 83 - n + r.randrange(-1, 3)) if n < 84 else b'', x), ck(x))
    for x in range(256):
        q = bytearray(hrp(r, 5))
        q[r.randrange(5)] = x
        add('b3_ser', bytes(q), syms(r, 4), ck(1))
        add('b3_ser', b'bc', syms(r, 3) + bytes([x]), ck(1))
    for ver in range(0, 34):
        for n in range(0, 44):
            if n in (0, 1, 2, 3, 39, 40, 41) or ver in (0, 1, 16, 17, 31, 32) or vt.THOROUGH or r.random() < .1:
                x = K()
                h = hrp(r, r.randrange(1, 12))
                add('b3_enc', h, ver, data(r, n), ck(x))
                s = bser(h, bytes([min(ver, 31)]) + conv(data(r, n), 8, 5), x)
                add('b3_dec', s, ck(x))
                add('b3_dec', s.upper(), ck(r.choice((x, x, x ^ 1 << r.randrange(30)))))
    for ver in (64, 255, 256, 2**31 - 1):
        add('b3_enc', b'bc', ver, data(r, 20), ck(1))
    # one defect under a correct checksum: any symbols, so any padding, any length
    for _ in range(3000 * k):
        x = K()
        h = hrp(r, r.choice((1, 2, 3, 8, 20)))
        n = r.choice((0, 1, 2, 3, 4, 5, 6, 33, 53, 64, 65, 66, 67, 68, r.randrange(80)))
        d = bytearray(syms(r, n))
        if n and r.random() < .6:
            d[-1] = r.choice((0, 1, 2, 4, 8, 16, 24, 28, 30))
        s = bser(h, d, x)
        m = r.random()
        if m < .35:
            s = mutate(r, s)
        elif m < .5:
            s = s.upper()
        elif m < .6 and n:
            # letter case inside the prefix or the data only
            p = len(h)
            s = s[:p].upper() + s[p:] if r.random() < .5 else s[:p] + s[p:].upper()
        elif m < .65:
            s = s + r.choice((b'', b'\0', b'\0q', b'1'))
        add('b3_dec' if r.random() < .6 else 'b3_des', s, ck(r.choice((x,) * 9 + (x ^ 1 << r.randrange(30),))))
    for _ in range(2 * k):
        for h, x in ((b'bc', 1), (hrp(r, 6), 0x2bc830a3)):
            s = bser(h, bytes([r.randrange(32)]) + conv(data(r, r.choice((2, 4, 20, 32, 40))), 8, 5), x)
            s = r.choice((s, s.upper()))
            for p in range(len(s)) if vt.THOROUGH else sorted(r.sample(range(len(s)), min(len(s), 24))):
                add('b3_scan', s, ck(x), p)
    # -- regrouping --
    for f in range(1, 9):
        for t in range(1, 9):
            for n in list(range(0, 12)) + [33, 40]:
                for _ in range(k):
                    if f * n <= 360:
                        s = bytearray(r.choice((0, 2**f - 1, r.randrange(2**f))) for _ in range(n))
                        if n and r.random() < .6:
                            s[-1] &= r.choice((0, 1, 2**f - 2, 2**f - 4, 2**f - 8))
                        add('bx_conv', bytes(s), f, t, r.randrange(2))
    # -- cashaddr --
    for n in range(0, 86):
        for d in (0, 1, 2, 33, 34, 103, 104, 105, 106, r.randrange(112)):
            if n < 3 or n > 80 or r.random() < .15:
                add('c3_ser', pre(r, n), syms(r, d))
                p = pre(r, n)
                add('c3_des', cser(p, syms(r, d)), r.choice((p, b'', b'other')))
                add('c3_des', cser(p, syms(r, d), False), p)
    for x in range(256):
        q = bytearray(pre(r, 5))
        q[r.randrange(5)] = x
        add('c3_ser', bytes(q), syms(r, 4))
        add('c3_ser', b'bchtest', syms(r, 3) + bytes([x]))
        add('c3_des', cser(bytes(q), syms(r, 4)), b'bchtest')
        add('c3_des', cser(bytes(q), syms(r, 4), False), bytes(q))
        b = bytes([x]) + data(r, CSZ[x & 7])
        add('c3_dec', cser(b'bitcoincash', conv(b, 8, 5), r.randrange(2)), b'bitcoincash')
    for ty in range(0, 18):
        for n in list(CSZ) + [0, 1, 19, 21, 65]:
            add('c3_enc', pre(r), ty, data(r, n))
    for n in range(0, 66):
        add('c3_enc', b'bitcoincash', r.randrange(16), data(r, n))
    for _ in range(3000 * k):
        p = pre(r)
        if r.random() < .6:
            z = r.randrange(8)
            b = bytes([r.randrange(16) << 3 | z]) + data(r, CSZ[z] + r.choice((0, 0, 0, 0, 1, -1)))
            d = bytearray(conv(b, 8, 5))
            if r.random() < .4:
                d[-1] = r.randrange(32) & r.choice((1, 3, 7, 28, 31))
            if r.random() < .1:
                d += bytes(r.choice((0, 1)) for _ in range(r.randrange(1, 3)))
        else:
            d = syms(r, r.choice((0, 1, 2, 3, 34, 104, r.randrange(110))))
        s = cser(p, d, r.random() < .6)
        m = r.random()
        if m < .35:
            s = mutate(r, s)
        elif m < .5:
            s = s.upper()
        elif m < .6 and b':' in s:
            i = s.index(b':')
            s = r.choice((s[:i].upper() + s[i:], s[:i] + s[i:].upper(), s + b':', b':' + s[i + 1:], s[:i] + b'1' + s[i:], s[:i] + b':' + s[i:], b'1' + s))
        e = r.choice((p, p, p, p, p, p, p.upper(), b'', p + b'1', pre(r), p[:-1]))
        add('c3_dec' if r.random() < .6 else 'c3_des', s, e)
    for _ in range(2 * k):
        z = r.randrange(5)
        p = pre(r, r.randrange(1, 12))
        s = cser(p, conv(bytes([r.randrange(16) << 3 | z]) + data(r, CSZ[z]), 8, 5), r.randrange(2))
        s = r.choice((s, s.upper()))
        for q in range(len(s)) if vt.THOROUGH else sorted(r.sample(range(len(s)), min(len(s), 20))):
            add('c3_scan', s, p, q)
    r.shuffle(tr)
    c.run('EncodingTrace', tr)
