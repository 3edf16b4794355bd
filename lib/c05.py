"""C05: GCM, CCM and EAX."""
import models
import vt
from c01 import data
from c03 import BS, IDS, good_key
from c04 import iv_for

WIDE = [i for i in IDS if BS[i] == 16]


def gmul(x, y):
    z = 0
    for k in range(127, -1, -1):
        if x >> k & 1:
            z ^= y
        y = (y >> 1) ^ (0xe1 << 120 if y & 1 else 0)
    return z


def ginv(x):
    r, e = 1 << 127, (1 << 128) - 2
    while e:
        if e & 1:
            r = gmul(r, x)
        x = gmul(x, x)
        e >>= 1
    return r


def dbl(b):
    n = len(b)
    v = int.from_bytes(b, 'big') << 1
    if v >> (8 * n):
        v = (v & ((1 << 8 * n) - 1)) ^ (0x1b if n == 8 else 0x87)
    return v.to_bytes(n, 'big')


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def blocks(exe, reqs):
    """(id, key, 'c_enc'/'c_dec', block) -> block, by the implementation."""
    return [bytes.fromhex(rs[1][0]) for rs in vt.drive(exe, [[['c_init', 0, i, k], [op, 0, b, 0]] for (i, k, op, b) in reqs])]


def crafted_ivs(r, exe, n):
    """Nonces for which the initial counter block has a chosen value (so that counter carries occur)."""
    out = []
    jobs = []
    for _ in range(n):
        m = r.choice(('gcm', 'eax'))
        i = r.choice(WIDE if m == 'gcm' else IDS)
        jobs.append((m, i, good_key(r, i)))
    h = blocks(exe, [(i, k, 'c_enc', bytes(BS[i])) for (m, i, k) in jobs])
    for (m, i, k), e0 in zip(jobs, h):
        bs = BS[i]
        if m == 'gcm':
            j0 = r.randbytes(12) + r.choice((b'\xff' * 4, b'\xff\xff\xff\xfe', b'\xff\xff\xff\xfd', b'\0\0\xff\xff', b'\x7f\xff\xff\xff'))
            hh = int.from_bytes(e0, 'big')
            hi = ginv(hh) if hh else 0
            iv = gmul(gmul(int.from_bytes(j0, 'big'), hi) ^ 128, hi)
            out.append((m, i, k, iv.to_bytes(16, 'big')))
        else:
            f = r.randrange(bs + 1)
            n0 = r.randbytes(bs - f) + b'\xff' * f
            d = blocks(exe, [(i, k, 'c_dec', n0)])[0]
            out.append((m, i, k, xor(xor(d, e0), dbl(e0))))
    return out


def sealed(exe, reqs):
    """(mode, id, key, iv, aad, msg, taglen) -> (ciphertext, tag) by the implementation, or None."""
    trs = []
    for (m, i, k, iv, aad, msg, tl) in reqs:
        ev = [['s_init', 0, i, m, 1, k, iv]]
        ev.append(['s_ccm', 0, len(msg), tl, aad] if m == 'ccm' else ['s_aad', 0, aad])
        trs.append(ev + [['s_update', 0, msg], ['s_final', 0], ['s_gettag', 0]])
    out = []
    for rs in vt.drive(exe, trs):
        try:
            out.append((bytes.fromhex(rs[2][1] if len(rs[2]) > 1 else ''), bytes.fromhex(rs[4][1] if len(rs[4]) > 1 else '')))
        except (IndexError, ValueError):
            out.append((b'', b''))
    return out


def params(r, m, bs):
    if m == 'gcm':
        return r.choice((4, 8, 12, 13, 14, 15, 16)), r.choice((0, 1, 7, 8, 11, 12, 12, 12, 13, 15, 16, 17, 31, 32, 33, r.randrange(80)))
    if m == 'ccm':
        return r.choice((4, 6, 8, 10, 12, 14, 16)), r.choice((7, 8, 9, 10, 11, 12, 13, 13, 14, 16, 20))
    return r.randrange(1, bs + 1), r.choice((1, bs - 1, bs, bs + 1, 2 * bs, r.randrange(1, 50)))


def check(c):
    r = vt.rng('c05')
    exes = vt.build_all(['w64', 'w32', 'rel'])
    hs = models.buffer_histories(c, 4, 13, 3, False)
    tr, reqs = [], []
    for i in IDS:
        bs = BS[i]
        for m in ('gcm', 'ccm', 'eax'):
            if bs == 8 and m != 'eax':
                tr.append([['s_init', 0, i, m, r.randrange(2), good_key(r, i), data(r, r.choice((8, 12, 13, 16)))]])
                continue
            for _ in range(24 if vt.THOROUGH else 6):
                tl, nl = params(r, m, bs)
                al = r.choice((0, 0, 1, bs - 1, bs, bs + 1, 2 * bs, r.randrange(4 * bs)))
                n = r.choice((0, 1, bs - 1, bs, bs + 1, 2 * bs, r.randrange(5 * bs)))
                k, iv, aad, msg = good_key(r, i), data(r, nl), data(r, al), data(r, n)
                tr.append([['s_cuts', 1, i, m, k, iv, msg, aad, bytes(tl) if m == 'ccm' else b'', 3 if vt.THOROUGH else 11]])
                reqs.append((m, i, k, iv, aad, msg, tl))
                # pieces from the model for associated data and message
                ta = models.scale(r.choice(hs), 4, bs, r)
                tm = models.scale(r.choice(hs), 4, bs, r)
                aad, msg = data(r, ta[-1] if ta else 0), data(r, tm[-1] if tm else 0)
                ev = [['s_init', 0, i, m, 1, k, iv]]
                if m == 'ccm':
                    ev += [['s_aad', 0, aad], ['s_ccm', 0, len(msg), tl, aad]]
                    if r.random() < .3:
                        ev.append(['s_ccm', 0, len(msg), tl, aad])   # refused the second time
                else:
                    ev += [['s_aad', 0, p] for p in models.pieces(ta, aad)]
                ev += [['s_gettag', 0]] * r.randrange(2)
                ev += [['s_update', 0, p] if r.random() < .7 else ['s_crypt', 0, p, r.randrange(2)] for p in models.pieces(tm, msg)]
                if r.random() < .3:
                    ev += [['s_copy', 1, 0], ['s_update', 1, data(r, 0 if m == 'ccm' else r.randrange(3 * bs))], ['s_final', 1], ['s_gettag', 1]]
                ev += [['s_settag', 0, bytes(tl)]] * r.randrange(2)
                ev += [['s_final', 0], ['s_gettag', 0]]
                tr.append(ev)
            # parameters
            for _ in range(6):
                k = good_key(r, i)
                iv = data(r, r.randrange(20))
                enc = r.randrange(2)
                ok = len(iv) >= 7 if m == 'ccm' else (len(iv) > 0 if m == 'eax' else True)
                ev = [['s_init', 0, i, m, enc, k, iv]]
                if ok:
                    if m == 'ccm':
                        ev += [['s_settag', 0, bytes(16)]] * r.randrange(2)
                        if r.random() < .3:
                            ev += [['s_final', 0]]
                        elif r.random() < .8:
                            ev += [['s_ccm', 0, 0, r.choice((0, 1, 2, 3, 4, 5, 7, 15, 16, 17, 18, 20)), data(r, 3)]]
                    else:
                        ev += [['s_ccm', 0, 0, 16, b'']] * r.randrange(2)
                    ev += [['s_pad', 0, 0], ['s_settag', 0, bytes(r.randrange(18))], ['s_settag', 0, bytes(r.randrange(18))]]
                    ev += [['s_final', 0], ['s_gettag', 0]]
                tr.append(ev)
            tr.append([['s_static', r.randrange(2), i, m, good_key(r, i), data(r, 12), data(r, 20)]])
    # counter carries
    for (m, i, k, iv) in crafted_ivs(r, exes['rel'], 200 if vt.THOROUGH else 40):
        aad, msg = data(r, r.randrange(20)), data(r, r.randrange(3 * BS[i], 6 * BS[i]))
        tr.append([['s_cuts', 1, i, m, k, iv, msg, aad, b'', 17]])
        reqs.append((m, i, k, iv, aad, msg, BS[i]))
    for m in ('gcm', 'ccm', 'eax'):
        reqs.append((m, 'aes128', good_key(r, 'aes128'), data(r, 13), data(r, 9), data(r, 4200), 16))
    # long associated data (three encodings of its length in CCM) and long messages
    for n in (65279, 65280, 65281) if vt.THOROUGH else (r.choice((65279, 65281)), 65280):
        reqs.append(('ccm', 'aes256', good_key(r, 'aes256'), data(r, r.choice((7, 12, 13))), data(r, n), data(r, 33), 8))
    for n in (65535, 65536, 70000) if vt.THOROUGH else (65536,):
        reqs.append(('ccm', 'aes128', good_key(r, 'aes128'), data(r, 13), b'', data(r, n), 16))
    # opening: genuine, and with one change
    for (m, i, k, iv, aad, msg, tl), (ct, tag) in zip(reqs, sealed(exes['rel'], reqs)):
        bs = BS[i]
        tag = tag[:tl]
        big = len(msg) + len(aad) > 1000
        if big:
            tr.append([['s_init', 0, i, m, 1, k, iv], ['s_ccm', 0, len(msg), tl, aad] if m == 'ccm' else ['s_aad', 0, aad],
                       ['s_update', 0, msg[:1000]], ['s_update', 0, msg[1000:]], ['s_final', 0], ['s_gettag', 0]])
        for w in range(1 if big else 10 if vt.THOROUGH else 5):
            k2, iv2, aad2, ct2, tag2, tl2 = k, bytearray(iv), bytearray(aad), bytearray(ct), bytearray(tag), len(tag)
            if w == 0:
                pass
            else:
                what = r.randrange(8)
                t = [None, iv2, aad2, ct2, tag2, tag2, tag2, tag2][what]
                if t:
                    t[r.randrange(len(t))] ^= 1 << r.randrange(8)
                elif what == 0 and m != 'ccm':
                    n = r.choice((4, 8, 12, 13, 14, 15, 16) if m == 'gcm' else range(1, bs + 1))
                    tag2 = (tag2 + bytes(16))[:min(n, 16)]
                elif what == 1 and m != 'ccm':
                    ct2 += b'\0'
                elif what == 2 and ct2 and m != 'ccm':
                    ct2 = ct2[:-1]
            ev = [['s_init', 0, i, m, 0, k2, bytes(iv2)]]
            if m == 'ccm':
                ev.append(['s_ccm', 0, len(ct2), tl2 or 16, bytes(aad2)])
            else:
                h = r.randrange(len(aad2) + 1)
                ev += [['s_aad', 0, bytes(aad2[:h])], ['s_aad', 0, bytes(aad2[h:])]]
            st = ['s_settag', 0, bytes(tag2)]
            h = r.randrange(len(ct2) + 1)
            up = [['s_update', 0, bytes(ct2[:h])], ['s_update', 0, bytes(ct2[h:])]]
            up.insert(r.randrange(3), st)
            tr.append(ev + up + [['s_gettag', 0], ['s_final', 0]])
        # every bit of the tag
        if not big and r.random() < (.2 if vt.THOROUGH else .05):
            for b in range(8 * len(tag)):
                t2 = bytearray(tag)
                t2[b // 8] ^= 1 << (b % 8)
                ev = [['s_init', 0, i, m, 0, k, iv], ['s_ccm', 0, len(ct), tl, aad] if m == 'ccm' else ['s_aad', 0, aad]]
                tr.append(ev + [['s_settag', 0, bytes(t2)], ['s_update', 0, ct], ['s_final', 0]])
        # no tag supplied
        if r.random() < .1:
            tr.append([['s_init', 0, i, m, 0, k, iv], ['s_update', 0, b''], ['s_final', 0]])
    c.run('CipherTrace', tr, exes=exes)
