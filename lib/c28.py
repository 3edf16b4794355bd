"""C28: memory utilities and short hashes."""
import vt
from c01 import data

EDGE64 = (0, 1, 2, 3, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000001, 0x1ffffffff, 0x7fffffffffffffff, 0x8000000000000000,
          0xffffffff00000000, 0xfffffffeffffffff, 0xffffffffffffffff)


def check(c):
    r = vt.rng('c28')
    tr = []
    k = 10 if vt.THOROUGH else 1
    add = lambda *e: tr.append([list(e)])
    w = lambda n: (r.choice(EDGE64) & (1 << 8 * n) - 1 if r.random() < .5 else r.getrandbits(8 * n)).to_bytes(n, 'big')
    for n in list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 1000]:
        for o in (0, 1, 3, 7):
            b = data(r, n + o + r.choice((0, 1, 9)))
            add('ut_zero', b, o, n)
            if n < 300:
                add('ut_xor', b, o, data(r, n))
                add('ut_xor3', b, o, data(r, n), data(r, n))
        add('ut_xor3a', data(r, n), data(r, n))
        for _ in range(6 * k):
            x = bytearray(data(r, n))
            y = bytearray(x)
            for _ in range(r.choice((0, 1, 1, 2, 3))):
                if n:
                    y[r.choice((0, n - 1, r.randrange(n)))] = r.choice((0, 1, 127, 128, 255, r.randrange(256)))
            add('ut_cmp', bytes(x), bytes(y))
    # every byte value against every change of it, at the ends and inside
    for v in range(256) if vt.THOROUGH else sorted(set(r.sample(range(256), 24)) | {0, 1, 127, 128, 254, 255}):
        n = r.choice((1, 2, 8, 33))
        p = r.choice((0, n - 1, r.randrange(n)))
        b = bytearray(data(r, n))
        b[p] = v
        add('ut_cmps', bytes(b), p)
    # two differences of opposite sign
    for _ in range(200 * k):
        n = r.randrange(2, 40)
        x, y = bytearray(data(r, n)), None
        y = bytearray(x)
        i, j = sorted(r.sample(range(n), 2))
        y[i] = (x[i] + r.choice((1, 128, 255))) & 255
        y[j] = (x[j] - r.choice((1, 128, 255))) & 255
        add('ut_cmp', bytes(x), bytes(y))
    for n in list(range(0, 40)) * 3 + [63, 64, 65, 127, 128, 255, 256, 257, 300, 511, 512, 513, 1027]:
        for _ in range(2 * k):
            add('ut_murmur', data(r, n), r.randrange(8), w(4))
            add('ut_tweak', data(r, n), w(4), w(4))
            add('ut_sip', data(r, n), r.randrange(8), data(r, 16))
    for m in EDGE64:
        for _ in range(12 * k):
            add('ut_sipmod', data(r, r.randrange(40)), data(r, 16), m.to_bytes(8, 'big'))
    for _ in range(400 * k):
        add('ut_sipmod', data(r, r.randrange(40)), data(r, 16), w(8))
        add('ut_sip128', w(8), data(r, 16))
        add('ut_sip256', w(8), data(r, 32))
    r.shuffle(tr)
    c.run('UtilTrace', tr, variants=('w64', 'w32', 'rel', 'rel32'))
