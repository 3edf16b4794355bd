"""C31: modes of operation called directly."""
import re
import vt
from c01 import data
from c03 import BS, IDS, good_key
from c04 import iv_for

MODES = ('ecb', 'cbc', 'xts', 'ctr', 'cfb', 'ofb', 'gcm', 'ccm', 'eax')
BLOCK = MODES[:3]


def split(r, mode, bs, n):
    """Lengths of calls: whole blocks, or for a keystream any cutting around blocks."""
    out = []
    while n > 0:
        k = bs * r.choice((1, 1, 2, 3, 7)) if mode in BLOCK else r.choice((0, 1, 2, bs - 1, bs, bs + 1, 2 * bs, 3 * bs + 5, r.randrange(5 * bs)))
        k = min(k, n)
        out.append(k)
        n -= k
    if r.random() < .2:
        out.insert(r.randrange(len(out) + 1), 0)
    return out


def calls(r, slot, mode, sizes, msg):
    ev, p = [], 0
    for k in sizes:
        ev.append(['md_crypt', slot, msg[p:p + k], r.randrange(2)])
        p += k
    return ev


def iv(r, mode, bs):
    if mode == 'gcm':
        return r.choice((data(r, 12), data(r, 12), data(r, r.choice((0, 1, 8, 15, 16, 17, 32, 40)))))
    if mode == 'ccm':
        return data(r, r.choice((7, 8, 11, 12, 13, 13, 14, 16)))
    if mode == 'eax':
        return data(r, r.choice((1, bs - 1, bs, bs + 1, 2 * bs, 40)))
    return iv_for(r, mode, bs)


def start(r, slot, mode, enc, i, n, tag=None):
    """A slot ready for a message of n bytes."""
    k = good_key(r, i)
    k2 = r.choice((k, good_key(r, i))) if mode == 'xts' else b''
    ev = [['md_init', slot, mode, enc, i, k, iv(r, mode, BS[i]), k2]]
    return ev + header(r, slot, mode, BS[i], n)


def header(r, slot, mode, bs, n):
    if mode == 'ccm':
        return [['md_ccm', slot, n, r.choice((4, 6, 8, 10, 12, 14, 16)), data(r, r.choice((0, 1, 13, 14, 15, 30, 70)))]]
    if mode in ('gcm', 'eax'):
        return [['md_aad', slot, data(r, r.choice((0, 1, bs - 1, bs, bs + 1, 3 * bs, 50)))] for _ in range(r.choice((0, 1, 1, 2, 3)))]
    return []


def check(c):
    r = vt.rng('c31')
    x = c.model('PrimModel', 'INIT Init\nNEXT Next\nCONSTANTS MaxCalls = %d\nINVARIANTS Back OneCall SameTag Say\nCHECK_DEADLOCK FALSE\n' % (4 if vt.THOROUGH else 3))
    hist = {}
    for m in re.finditer(r'<<"H", "(\w+)", <<([\d, ]*)>>>>', x.out):
        hist.setdefault(m.group(1), set()).add(tuple(int(v) for v in m.group(2).split(',')))
    if set(hist) != set(MODES):
        raise vt.CheckError('no histories for some modes')
    big = 4 if vt.THOROUGH else 1
    tr = []
    for i in IDS:
        bs = BS[i]
        for m in MODES:
            if m in ('gcm', 'ccm') and bs != 16:
                tr.append([['md_init', 0, m, 1, i, good_key(r, i), data(r, 12), b'']])
                continue
            hs = sorted(hist[m])
            for h in r.sample(hs, min(len(hs), 6 * big)) if i != 'aes128' else hs:
                # a history of the model in blocks of this cipher, taken both ways
                sz = [(v // 16) * bs + min(v % 16, bs - 1) for v in h]
                n = sum(sz)
                ev = start(r, 0, m, r.randrange(2), i, n)
                ev += calls(r, 0, m, sz, data(r, n))
                if m in ('gcm', 'ccm', 'eax'):
                    ev.append(['md_digest', 0])
                tr.append(ev)
            for _ in range(6 * big):
                n = r.choice((1, 2, 3, 5, 8, 9, 17)) * bs + (0 if m in BLOCK else r.randrange(bs))
                enc = r.randrange(2)
                ev = start(r, 0, m, enc, i, n)
                msg = data(r, n)
                cs = calls(r, 0, m, split(r, m, bs, n), msg)
                if r.random() < .4:
                    # a copy in the middle goes its own way
                    j = r.randrange(len(cs) + 1)
                    at = sum(len(e[2]) for e in cs[:j])
                    other = calls(r, 1, m, split(r, m, bs, n - at), data(r, n - at))
                    mix = cs[j:]
                    for e in other:
                        mix.insert(r.randrange(len(mix) + 1), e)
                    order = iter(other)
                    mix = [next(order) if e[1] == 1 else e for e in mix]
                    ev += cs[:j] + [['md_copy', 1, 0]] + mix
                    if m in ('gcm', 'ccm', 'eax'):
                        ev.append(['md_digest', 1])
                else:
                    ev += cs
                if m in ('gcm', 'ccm', 'eax'):
                    ev.append(['md_digest', 0])
                if m in BLOCK:
                    ev.append(['md_steal', 0, data(r, r.choice((0, 1, bs - 1, r.randrange(bs))))])
                tr.append(ev)
            if m in BLOCK:
                for k in range(bs):
                    for enc in (0, 1):
                        n = bs * r.choice((1, 2, 3))
                        tr.append(start(r, 0, m, enc, i, n) + calls(r, 0, m, split(r, m, bs, n), data(r, n)) + [['md_steal', 0, data(r, k)]])
            if m == 'ccm':
                for t in range(18):
                    k = good_key(r, i)
                    ev = [['md_init', 0, m, 1, i, k, iv(r, m, bs), b''], ['md_ccm', 0, 3, t, b'']]
                    if t < 4 or t > 16 or t % 2:
                        # refused: the next attempt starts from the same nonce
                        ev += header(r, 0, m, bs, 40) + calls(r, 0, m, split(r, m, bs, 40), data(r, 40)) + [['md_digest', 0]]
                    tr.append(ev)
            if m in ('ccm', 'eax', 'gcm'):
                for l in range(9):
                    tr.append([['md_init', 0, m, 1, i, good_key(r, i), data(r, l), b'']])
            if m == 'xts':
                for l in (0, 1, 7, 15, 17, 33, 129, 256):
                    tr.append([['md_init', 0, m, 1, i, good_key(r, i), data(r, bs), data(r, l)]])
    c.run('PrimTrace', tr, variants=('w64', 'w32', 'rel'))
