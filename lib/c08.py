"""C08: SP 800-90A generators."""
import hashlib, re
import models
import vt
from c01 import IDS, SIZE, data
from c05 import blocks, xor


def histories(c, n):
    x = c.model('DrbgHist', 'INIT Init\nNEXT Next\nCONSTANT MaxCalls = %d\nINVARIANTS Deterministic Report\n' % n)
    out = []
    for m in re.finditer(r'<<"H", <<(.*?)>>>>\s*$', x.out, re.M):
        out.append([(a, int(b), int(p), int(q)) for a, b, p, q in re.findall(r'<<"(\w)", (\d+), (\d+), (\d+)>>', m.group(0))])
    if not out:
        raise vt.CheckError('no histories generated')
    return sorted(out)


def addl(r, cl, seed=48):
    return data(r, [0, r.choice((1, 2, 15, 16, 17, 32, r.randrange(1, 40))),
                    r.choice((seed - 1, seed, seed + 1, 111, 128, 200, 511, 512, 513, 700))][cl])


def replay(r, init, blk, h, seed=48):
    ev = [init]
    for (a, k, p, q) in h:
        s = k - 1
        if a == 'c':
            ev.append(['dr_copy', 1, 0])
        elif a == 'r':
            ev.append(['dr_reseed', s, addl(r, p, seed), addl(r, r.randrange(3), seed) if init[0] == 'ct_init' else b''])
        else:
            n = [0, r.randrange(1, blk), blk, r.choice((blk + 1, 2 * blk - 1, 2 * blk, 3 * blk + r.randrange(blk)))][p]
            ev.append(['dr_rng', s, n] if q == 0 and r.random() < .3 else ['dr_gen', s, n, addl(r, q, seed)])
        if r.random() < .05:
            ev.append(['dr_move', s])
    live = 2 if any(x[0] == 'c' for x in h) else 1
    for s in range(live):
        ev.append(['dr_gen', s, blk + 5, b''])
    return ev


def carries(r, exe, n):
    """Counter generators whose counter starts at a chosen value: without derivation the seed is added to known blocks."""
    out = []
    for bits in (128, 192, 256):
        size = bits // 8 + 16
        zero = blocks(exe, [('aes%d' % bits, bytes(bits // 8), 'c_enc', i.to_bytes(16, 'big')) for i in range(1, size // 16 + 2)])
        zero = b''.join(zero)[:size]
        for w in range(1, 17):
            for _ in range(n):
                v = ((r.getrandbits(128) >> 8 * w << 8 * w) + (1 << 8 * w) - r.randrange(1, 5)) % (1 << 128)
                seed = xor(zero, data(r, bits // 8) + v.to_bytes(16, 'big'))
                out.append([['ct_init', 0, bits, 0, seed, b''], ['dr_gen', 0, r.choice((16, 80, 100)), b''], ['dr_gen', 0, 20, b'']])
    return out


def hashcarries(r, n):
    """Hash generators whose value ends in bytes that carry when it is counted up or added to."""
    out = []
    for a, f, sl in (('sha1', hashlib.sha1, 55), ('sha256', hashlib.sha256, 55), ('sha512', hashlib.sha512, 111)):
        for _ in range(n):
            while True:
                seed = data(r, 8) + r.randbytes(24)
                v = b''.join(f(bytes([i]) + (8 * sl).to_bytes(4, 'big') + seed).digest() for i in range(1, 4))[:sl]
                if v[-2:] == b'\xff\xff':
                    break
            out.append([['hs_init', 0, a, seed], ['dr_gen', 0, 4 * SIZE[a] + 3, b''], ['dr_gen', 0, 20, data(r, 3)], ['dr_gen', 0, 20, b'']])
    return out


def check(c):
    r = vt.rng('c08')
    hs = histories(c, 3)
    tr = []
    for a in IDS:
        for h in r.sample(hs, 120 if vt.THOROUGH else 14):
            s0 = r.choice((0, 1, 24, 32, 48, 55, 64, 111, 200))
            tr.append(replay(r, ['hm_init', 0, a, data(r, s0)], SIZE[a], h))
            tr.append(replay(r, ['hs_init', 0, a, data(r, s0)], SIZE[a], h, 55))
    for bits in (128, 192, 256):
        for df in (0, 1):
            for h in hs if vt.THOROUGH else r.sample(hs, 150):
                seed = bits // 8 + 16
                n = lambda: data(r, r.choice((0, 1, seed - 1, seed, seed + 1, 16, 64, 511, 512, 513, 600)))
                tr.append(replay(r, ['ct_init', 0, bits, df, n(), n()], 16, h, seed))
    # long histories, interleaved generators
    for _ in range(300 if vt.THOROUGH else 60):
        ev, kinds = [], {}
        for _ in range(25):
            s = r.randrange(4)
            if s not in kinds or r.random() < .06:
                w = r.randrange(3)
                a = r.choice(IDS)
                ev.append([['hm_init', s, a, data(r, r.randrange(100))], ['hs_init', s, a, data(r, r.randrange(100))],
                           ['ct_init', s, r.choice((128, 192, 256)), r.randrange(2), data(r, r.randrange(80)), data(r, r.randrange(80))]][w])
                kinds[s] = w
            elif r.random() < .2:
                ev.append(['dr_reseed', s, addl(r, r.randrange(3)), addl(r, r.randrange(3)) if kinds[s] == 2 else b''])
            elif r.random() < .1:
                d = r.randrange(4)
                if d != s:
                    ev.append(['dr_copy', d, s])
                    kinds[d] = kinds[s]
            elif r.random() < .05:
                ev.append(['dr_move', s])
            else:
                ev.append(['dr_gen', s, r.choice((0, 1, 16, 20, 32, 64, r.randrange(200))), addl(r, r.choice((0, 0, 0, 1, 2)))])
        tr.append(ev)
    tr += carries(r, vt.build_all(['rel'])['rel'], 6 if vt.THOROUGH else 2) + hashcarries(r, 10 if vt.THOROUGH else 2)
    # the count of requests since the last seed takes more than a byte
    for init in (['hs_init', 0, 'sha256', data(r, 40)], ['hm_init', 0, 'sha256', data(r, 40)], ['ct_init', 0, 256, 1, data(r, 40), b'']):
        tr.append([init] + [['dr_gen', 0, 1, b''] for _ in range(300)] + [['dr_reseed', 0, data(r, 20), b''], ['dr_gen', 0, 9, b'']])
    c.run('DrbgTrace', tr)
