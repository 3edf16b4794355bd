"""C13: key derivation functions."""
import vt
from c01 import data, IDS, SIZE, BLOCK


def lens(r, h):
    return r.choice((0, 1, h - 1, h, h + 1, 2 * h - 1, 2 * h, 2 * h + 1, 3 * h, r.randrange(4 * h)))


def key(r, a):
    b = BLOCK[a]
    return data(r, r.choice((0, 1, 8, b - 1, b, b + 1, 2 * b, r.randrange(200))))


def record(r):
    A = './ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
    return ('$2' + r.choice('ab') + '$04$' + ''.join(r.choice(A) for _ in range(53))).encode()


def check(c):
    r = vt.rng('c13')
    if vt.THOROUGH:
        c.model('KdfTest')
    tr = []
    k = 6 if vt.THOROUGH else 1
    add = lambda *e: tr.append([list(e)])
    slow = ('md2', 'gost94', 'whirlpool')
    for a in IDS:
        h = SIZE[a]
        n = (3 if a in slow else 14) * k
        for _ in range(n):
            add('kd_extract', a, key(r, a), key(r, a))
            add('kd_expand', a, data(r, h), data(r, r.choice((0, 1, 20, 80))), lens(r, h))
            add('kd_pbkdf2', a, key(r, a), data(r, r.choice((0, 1, 8, 16, 60))), r.choice((1, 2, 3, r.randrange(1, 12))), lens(r, h))
            add('kd_eb2k', a, key(r, a), data(r, r.choice((0, 8, 8, 8, 1, 4, 7, 9, 16))), lens(r, h), r.choice((0, 8, 16, lens(r, h))))
            add('kd_pgp0', a, key(r, a), lens(r, h))
            add('kd_pgp1', a, key(r, a), data(r, r.choice((0, 8, 8, 3))), lens(r, h))
            p, s = data(r, r.choice((0, 1, 5, r.randrange(40)))), data(r, r.choice((8, 8, 8, 0, 1, 20)))
            t = len(p) + len(s)
            cnt = r.choice((0, 1, t - 1, t, t + 1, t + len(s) - 1, t + len(s), t + len(s) + 1, 2 * t - 1, 2 * t, 2 * t + 1, 3 * t + 5, r.randrange(600), 1024))
            add('kd_pgp2', a, p, s, max(cnt, 0), lens(r, h))
        for m in (254, 255, 256) if a in ('md5', 'sha256', 'sha512', 'sha1') or vt.THOROUGH else ():
            if a not in slow:
                for d in (-1, 0, 1):
                    add('kd_expand', a, data(r, h), data(r, 3), m * h + d)
        add('kd_expand', a, data(r, h), b'', 255 * h + 1)
        add('kd_expand', a, data(r, h), b'', 256 * h + 7)
    for x in (-1, 60, 100, 1000):
        add('kd_badhash', x)
    # more blocks than fit into one byte of the counter
    for a in ('md5', 'sha1'):
        add('kd_pbkdf2', a, data(r, 5), data(r, 4), 1, 257 * SIZE[a] + 3)
    # -- scrypt --
    b8 = lambda x, n: x.to_bytes(n, 'big')
    for _ in range(60 * k):
        rr, n, p = r.choice(((1, 2, 1), (1, 16, 1), (2, 4, 3), (8, 16, 1), (3, 32, 2), (1, 1024, 1), (5, 8, 2), (8, 64, 2), (16, 4, 1)))
        add('kd_scrypt', data(r, r.choice((0, 4, 64, 65, 100))), data(r, r.choice((0, 4, 64))), b8(n, 8), b8(rr, 4), b8(p, 4),
            r.choice((0, 1, 31, 32, 33, 64, 100)))
    for n in (0, 1, 3, 5, 6, 7, 9, 12, 15, 17, 24, 1000, 1 << 16, (1 << 16) + 1, 1 << 17, 1 << 31, 1 << 32, 1 << 63, (1 << 63) + 1, (1 << 64) - 1, 0x100000001):
        if n in (1 << 16, 1 << 17, 1 << 31, 1 << 32, 1 << 63):
            add('kd_scrypt', b'p', b's', b8(n, 8), b8(1, 4), b8(1, 4), 16)     # at least 2^(16 r)
        else:
            for rr in (1, 2, 8):
                add('kd_scrypt', b'p', b's', b8(n, 8), b8(rr, 4), b8(r.choice((1, 3)), 4), 16)
    for n, rr, p in ((2, 0, 1), (2, 1, 0), (2, 1 << 30, 1), (2, 1, 1 << 30), (2, 1 << 15, 1 << 15), (2, (1 << 32) - 1, (1 << 32) - 1), (2, 1 << 31, 2), (2, 1 << 16, 1 << 16),
                     (16, 3 << 28, 2), (1 << 32, 2, 1), (2, 1 << 31, 1 << 31), (4, 65536, 16384)):
        add('kd_scrypt', b'p', b's', b8(n, 8), b8(rr, 4), b8(p, 4), 16)
    # -- bcrypt --
    LENS = (0, 1, 2, 3, 8, 17, 54, 55, 56, 70, 71, 72, 73, 74, 100, 127, 128, 200, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513)
    made = []
    text = lambda n: bytes(r.choice(tuple(range(32, 127)) + (7, 9, 10, 13)) for _ in range(n))
    for m in (97, 98):
        for n in LENS:
            for j in range(k):
                p, s = (text(n) if r.random() < .6 else data(r, n)), data(r, 16)
                cost = r.choice((4, 4, 4, 5))
                add('kd_bcgen', p, s, cost, m)
                if n in (0, 1, 71, 72, 73, 254, 255, 256, 257, 300):
                    add('kd_bchash', text(n), s, 4, m)
                made.append((p, s, m))
    for m in (0, 97, 98, 99, 120, 121, 50, 65, 66, 36, 255, 96):
        for cost in (0, 1, 3, 4, 32, 33, 99, 2**31 - 1, -1):
            if cost == 4 and m in (97, 98):
                continue
            add('kd_bcgen', b'abc', data(r, 16), cost, m)
    for x in range(256):
        add('kd_bchash', b'ab' + bytes([x]) + b'c', data(r, 16), 4, 98 if x % 2 else 97)
    for x in (0, 6, 7, 13, 14, 31, 32, 126, 127, 128, 255):
        add('kd_bccheck', b'ab' + bytes([x]), record(r))
    for n in (0, 1, 30, 31, 32, 33, 63, 64, 65, 100, 511, 1023, 1024, 1025, 2000) if vt.THOROUGH else (0, 1, 31, 32, 33, 64, 65, 100, 1024, 1025):
        add('kd_bcpbkdf', data(r, r.choice((1, 8, 100))), data(r, r.choice((1, 16, 64))), 1 if n > 200 else r.randrange(1, 4), n)
    for p, s, ro in ((b'', b's', 1), (b'p', b'', 1), (b'p', b's', 0)):
        add('kd_bcpbkdf', p, s, ro, 32)
    for n in (1 << 20, (1 << 20) + 1):
        add('kd_bcpbkdf', b'p', bytes([r.randrange(256)]) * n, 1, 32)
    # -- verification: each generated string against its own and other passwords, and damaged --
    exe = vt.build('w64')
    gen = [['kd_bcgen', p, s, 4, m] for p, s, m in r.sample(made, 16 * k if vt.THOROUGH else 16)]
    out = vt.drive(exe, [[g] for g in gen])
    for g, o in zip(gen, out):
        t = o[0][0] if o and o[0] else ''
        if not t.endswith('.'):
            continue
        rec, p = bytes.fromhex(t[:-1]), g[1]
        add('kd_bcver', p, rec)
        q = bytearray(p)
        if q:
            i = r.choice((0, len(q) - 1, min(71, len(q) - 1), min(72, len(q) - 1), r.randrange(len(q))))
            q[i] ^= 1 << r.randrange(8)
            add('kd_bcver', bytes(q), rec)
        for q in (p + b'\0', p + b'x', p[:-1], p + p + bytes(1), p[:72], p[:73]):
            if r.random() < .35:
                add('kd_bcver', q, rec)
        add('kd_bcver', p, rec[:r.randrange(60)])
        add('kd_bcver', p, rec + r.choice((b'.', b'$', b' ', b'\0a')))
        for i in r.sample(range(60), 8 if not vt.THOROUGH else 30):
            d = bytearray(rec)
            # the cost digits stay within what can be computed
            d[i] = d[i] if i in (4, 5) else r.choice((r.randrange(1, 256), r.choice(b'./Az09$'), d[i] ^ 1, d[i] ^ 0x80))
            add('kd_bcver', p, bytes(d))
        for cc in (b'00', b'03', b'05', b'32', b'39', b'99', b'4$', b' 4', b'0:', b'/4', b'0\xb4'):
            if r.random() < .3:
                add('kd_bcver', p, rec[:4] + cc + rec[6:])
        add('kd_bcver', p, rec[:2] + r.choice((b'x', b'y', b'$', b'c', b'A', b'B', b'`')) + rec[3:])
        add('kd_bcver', p, rec[:2] + (b'a' if rec[2] == 98 else b'b') + rec[3:])
        if 0 not in p:
            add('kd_bccheck', p, rec)
    r.shuffle(tr)
    c.run('KdfTrace', tr)
