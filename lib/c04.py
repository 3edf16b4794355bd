"""C04: modes of operation as streams."""
import models
import vt
from c01 import data
from c03 import BS, IDS, good_key

MODES = ['raw', 'ecb', 'cbc', 'cts', 'xts', 'ctr', 'cfb', 'ofb']
BLOCK = MODES[:5]


def key_for(r, i, mode):
    k = good_key(r, i)
    if mode != 'xts':
        return k
    while True:
        k2 = bytearray(r.randbytes(len(k)))
        if r.random() < .3:
            k2 = bytearray(k)
            k2[r.randrange(len(k))] ^= 1 << r.randrange(8)
        if bytes(k2) != k:
            return k + bytes(k2)


def iv_for(r, mode, bs):
    if mode in ('raw', 'ecb'):
        return b''
    if mode == 'ctr' or r.random() < .2:
        # counters whose increment carries through several bytes
        n = r.randrange(bs + 1)
        iv = bytearray(r.randbytes(bs - n) + b'\xff' * n)
        iv[-1] = r.choice((0xfe, 0xff, 0xfd, 0, iv[-1]))
        return bytes(iv)
    return data(r, bs)


def pieces_ev(r, slot, mode, bs, tot, msg):
    ev = []
    for p in models.pieces(tot, msg):
        if r.random() < .12:
            ev.append(['s_crypt', slot, p, r.randrange(2)])   # one-shot form; refused unless aligned and nothing pending
            if not (mode not in BLOCK):
                ev.append(['s_update', slot, b''])
        else:
            ev.append(['s_update', slot, p])
    return ev


def encrypted(exe, reqs):
    """Ciphertexts (or None) for (id, mode, padding, key, iv, msg), produced by the implementation."""
    trs = []
    for (i, m, pad, k, iv, msg) in reqs:
        ev = [['s_init', 0, i, m, 1, k, iv]]
        if not pad:
            ev.append(['s_pad', 0, 0])
        trs.append(ev + [['s_update', 0, msg], ['s_final', 0]])
    out = []
    for rs in vt.drive(exe, trs):
        try:
            up, fin = rs[-2], rs[-1]
            out.append(bytes.fromhex(up[1] if len(up) > 1 else '') + bytes.fromhex(fin[2] if len(fin) > 2 else ''))
        except (IndexError, ValueError):
            out.append(b'')
    return out


def check(c):
    r = vt.rng('c04')
    exes = vt.build_all(['w64', 'w32', 'rel'])
    hist = {False: models.buffer_histories(c, 4, 13, 3, False), True: models.buffer_histories(c, 4, 13, 3, True)}
    tr, reqs = [], []
    ids = IDS
    for i in ids:
        bs = BS[i]
        for m in MODES:
            lens = sorted({0, 1, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1, 3 * bs, r.randrange(2 * bs, 5 * bs)})
            for n in lens if vt.THOROUGH else r.sample(lens, 6):
                # every cutting into pieces
                msg, k, iv = data(r, n), key_for(r, i, m), iv_for(r, m, bs)
                tr.append([['s_cuts', 1, i, m, k, iv, msg, b'', b'', 3 if vt.THOROUGH else 7]])
                tr.append([['s_static', r.randrange(2), i, m, k, iv, msg]])
                reqs.append((i, m, True, k, iv, msg))
                reqs.append((i, m, False, k, iv, data(r, n - n % bs)))
            # bad parameters
            for _ in range(4):
                k, iv = key_for(r, i, m), iv_for(r, m, bs)
                w = r.randrange(5)
                if w == 0:
                    iv = data(r, r.choice((0, 1, bs - 1, bs, bs + 1, 8, 16, 24)))
                elif w == 1:
                    k = data(r, r.choice((0, 1, 7, 15, 16, 17, 32, 33, 64, 129, 256)))
                elif w == 2 and m == 'xts':
                    k = k[:len(k) // 2] * 2
                elif w == 3 and m == 'xts':
                    k = k + b'\x01'
                tr.append([['s_init', 0, i, m, r.randrange(2), k, iv]])
                tr.append([['s_static', r.randrange(2), i, m, k, iv, data(r, r.randrange(40))]])
            # histories from the model, padding switched on and off, refused one-shot calls
            for _ in range(12 if vt.THOROUGH else 4):
                enc = r.randrange(2)
                k, iv = key_for(r, i, m), iv_for(r, m, bs)
                tot = models.scale(r.choice(hist[m in BLOCK and r.random() < .5]), 4, bs, r)
                msg = data(r, tot[-1] if tot else 0)
                ev = [['s_init', 0, i, m, enc, k, iv]]
                if r.random() < .5:
                    ev.append(['s_pad', 0, r.randrange(3)])
                pe = pieces_ev(r, 0, m, bs, tot, msg)
                if r.random() < .3:
                    pe.insert(r.randrange(len(pe) + 1), ['s_pad', 0, r.randrange(2)])
                ev += pe
                if r.random() < .5:
                    ev.append(['s_copy', 1, 0])
                    ev.append(['s_update', 0, data(r, r.randrange(2 * bs))])
                    ev.append(['s_final', 1])
                ev.append(['s_final', 0])
                ev += [['s_aad', 0, b'x'], ['s_settag', 0, bytes(16)], ['s_gettag', 0], ['s_ccm', 0, 5, 16, b'']][:r.choice((0, 0, 4))]
                tr.append(ev)
            # blocks whose padding is wrong in every possible way
            if m in ('ecb', 'cbc'):
                bad = []
                for v in range(0, bs + 2):
                    for pos in [None] + ([r.randrange(bs)] if not vt.THOROUGH else list(range(bs))):
                        b = bytearray(data(r, bs))
                        for j in range(max(0, bs - v), bs):
                            b[j] = v
                        b[-1] = v
                        if pos is not None:
                            b[pos] ^= 1 << r.randrange(8)
                        bad.append(bytes(b))
                bad += [b'\xff' * bs, b'\x80' * bs]
                if not vt.THOROUGH:
                    bad = r.sample(bad, min(len(bad), 14))
                for b in bad:
                    k, iv = key_for(r, i, m), iv_for(r, m, bs)
                    reqs.append((i, m, False, k, iv, data(r, bs * r.randrange(3)) + b))
            # several streams interleaved
        for _ in range(6 if vt.THOROUGH else 2):
            ev, live = [], {}
            for _ in range(16):
                s = r.randrange(3)
                if s not in live:
                    m = r.choice(MODES)
                    i2 = r.choice((i, r.choice(IDS)))
                    ev.append(['s_init', s, i2, m, r.randrange(2), key_for(r, i2, m), iv_for(r, m, BS[i2])])
                    live[s] = (m, BS[i2])
                elif r.random() < .8:
                    ev.append(['s_update', s, data(r, r.choice((0, 1, live[s][1] - 1, live[s][1], r.randrange(3 * live[s][1]))))])
                else:
                    ev.append(['s_final', s])
                    del live[s]
            tr.append(ev + [['s_final', s] for s in sorted(live)])
    # decryption of genuine, truncated, extended and modified ciphertexts
    for (i, m, pad, k, iv, msg), ct in zip(reqs, encrypted(exes['rel'], reqs)):
        bs = BS[i]
        tr.append([['s_cuts', 0, i, m, k, iv, ct, b'', b'', 3 if vt.THOROUGH else 9]])
        for _ in range(3 if vt.THOROUGH else 1):
            x = bytearray(ct)
            w = r.randrange(4)
            if w == 0 and x:
                x = x[:r.randrange(len(x))]
            elif w == 1 and x:
                x[r.randrange(len(x))] ^= 1 << r.randrange(8)
            elif w == 2:
                x += data(r, r.choice((1, bs - 1, bs, bs + 1)))
            tr.append([['s_static', 0, i, m, k, iv, bytes(x)]])
        if r.random() < .3:
            tot = models.scale(r.choice(hist[True]), 4, bs, r)
            tot = [min(t, len(ct)) for t in tot] + [len(ct)]
            tr.append([['s_init', 0, i, m, 0, k, iv]] + ([] if pad or m not in BLOCK else [['s_pad', 0, 0]])
                      + pieces_ev(r, 0, m, bs, tot, ct) + [['s_final', 0]])
    for n in (8, 16) + ((1, 2, 7, 32, 255) if vt.THOROUGH else ()):
        for k in range(n + 1):
            tr.append([['p7_pad', data(r, k), n]])
        for v in list(range(n + 2)) + [127, 128, 255]:
            for bad in (None, 0, r.randrange(n), n - 2):
                b = bytearray(data(r, n))
                for j in range(max(0, n - v), n):
                    b[j] = v
                b[-1] = v
                if bad is not None:
                    b[bad] ^= 1 << r.randrange(8)
                tr.append([['p7_unpad', bytes(b)]])
    c.run('CipherTrace', tr, exes=exes)
