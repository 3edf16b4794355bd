"""C03: block ciphers."""
import vt
from c01 import data

FIX = {'aes128': 16, 'aes192': 24, 'aes256': 32, 'arc2_40': 5, 'arc2_64': 8, 'arc2_128': 16, 'arc2_128_gutmann': 16,
       'camellia128': 16, 'camellia192': 24, 'camellia256': 32, 'cast5': 16, 'des': 8, 'des_ede': 16, 'des_ede3': 24,
       'idea': 16, 'serpent128': 16, 'serpent192': 24, 'serpent256': 32, 'twofish128': 16, 'twofish192': 24,
       'twofish256': 32}
RANGE = {'arc2': 128, 'arc2_gutmann': 128, 'blowfish': 72}
IDS = sorted(list(FIX) + list(RANGE))
BS = {i: 16 if i[:3] in ('aes', 'cam', 'ser', 'two') else 8 for i in IDS}
NAMED = [i for i in IDS if not i.startswith('arc2')]


def good_key(r, i):
    n = FIX[i] if i in FIX else r.randrange(1, RANGE[i] + 1)
    return data(r, n)


def check(c):
    r = vt.rng('c03')
    tr = []
    n = 60 if vt.THOROUGH else 14
    for i in IDS:
        bs = BS[i]
        tr.append([['c_sizes', i]])
        # key sizes around and away from the accepted ones
        for kl in sorted({0, 1, 4, 5, 6, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 56, 57, 64, 71, 72, 73, 127, 128, 129}):
            tr.append([['c_init', 0, i, data(r, kl)]])
        # keys: random, single bits, extremes; blocks likewise, both directions, in place and not
        keys = [good_key(r, i) for _ in range(n)]
        L = FIX.get(i, 16)
        for _ in range(n // 2):
            k = bytearray(r.choice((bytes(L), b'\xff' * L)))
            k[r.randrange(L)] ^= 1 << r.randrange(8)
            keys.append(bytes(k))
        if i in RANGE:
            keys += [data(r, x) for x in (1, 2, 3, 5, 55, 56, 57, RANGE[i] - 1, RANGE[i])]
        for k in keys:
            ev = [['c_init', 0, i, k]]
            for _ in range(4):
                b = data(r, bs)
                if r.random() < .3:
                    v = bytearray(bs)
                    v[r.randrange(bs)] = 1 << r.randrange(8)
                    b = bytes(v)
                ev.append([r.choice(('c_enc', 'c_dec')), 0, b, r.randrange(2)])
            tr.append(ev)
            if i in NAMED:
                tr.append([['c_named', i, k, data(r, bs)]])
        # two contexts side by side, re-keying
        k1, k2 = good_key(r, i), good_key(r, r.choice(IDS))
        ev = [['c_init', 0, i, k1], ['c_init', 1, i, good_key(r, i)]]
        for _ in range(6):
            ev.append([r.choice(('c_enc', 'c_dec')), r.randrange(2), data(r, bs), r.randrange(2)])
        ev += [['c_init', 0, i, k1[::-1]], ['c_enc', 0, data(r, bs), 1], ['c_dec', 0, data(r, bs), 0]]
        tr.append(ev)
        for d in range(0, bs):
            tr.append([['steal', 'ecb', r.randrange(2), i, k1, b'', data(r, bs), data(r, d)]])
    for _ in range(400 if vt.THOROUGH else 60):
        tr.append([['arc2_ekb', data(r, r.randrange(1, 129)), r.choice((0, 1, 7, 8, 9, 40, 63, 64, 65, 128, 1016, 1017, 1023, 1024,
                                                                    r.randrange(1025))), data(r, 8)]])
        tr.append([['bf_salt', data(r, r.randrange(1, 73)), data(r, r.choice((0, 1, 15, 16, 17, r.randrange(80)))), data(r, 8)]])
    tr.append([['c_sizes', 'none'], ['c_init', 0, 'none', bytes(16)]])
    if vt.THOROUGH:
        c.model('CipherTest')
    c.run('CipherTrace', tr, variants=('w64', 'w32', 'rel'))
