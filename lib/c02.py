"""C02: incremental HMAC."""
import models
import vt
from c01 import BLOCK, IDS, SIZE, data


def check(c):
    r = vt.rng('c02')
    tr = []
    hs = models.buffer_histories(c, 4, 9, 2, False)
    for a in IDS:
        B = BLOCK[a]
        keys = sorted({0, 1, 2, SIZE[a] - 1, SIZE[a], SIZE[a] + 1, B - 2, B - 1, B, B + 1, B + 2, 2 * B - 1, 2 * B, 2 * B + 1})
        allk = sorted(set(range(0, 2 * B + 3)) | set(keys)) if vt.THOROUGH else keys + r.sample(range(3, B), 5)
        for kl in allk:
            for _ in range(2 if vt.THOROUGH else 3):
                tot = models.scale(r.choice(hs), 4, B, r)
                msg = data(r, tot[-1])
                tr.append([['hmac_init', 0, a, data(r, kl)]] + [['hash_update', 0, p] for p in models.pieces(tot, msg)]
                          + [['hash_final', 0, 0]])
        for kl in (4 * B + 1, 1000, 4097, 5000, 65537) if vt.THOROUGH else r.sample((4 * B + 1, 1000, 4097, 5000), 2):
            msg = data(r, r.choice((0, 20, 3000)))
            tr.append([['hmac_init', 0, a, data(r, kl)], ['hash_update', 0, msg], ['hash_final', 0, 0]])
        # cuts at every position of the message
        for n in (0, 1, B - 9, B - 1, B, B + 1, r.randrange(2, 2 * B)):
            if n >= 0:
                tr.append([['hash_cuts', 3, a, data(r, r.choice(keys)), data(r, n), 3 if vt.THOROUGH else 11]])
        # interleaved contexts (mac and plain), copies, reuse of a finished context
        for _ in range(12 if vt.THOROUGH else 4):
            ev, live = [], {}
            for _ in range(r.randrange(10, 24)):
                s = r.randrange(3)
                k = r.random()
                if s not in live:
                    a2 = a if r.random() < .7 else r.choice(IDS)
                    if r.random() < .85:
                        ev.append(['hmac_init', s, a2, data(r, r.choice((0, 1, B - 1, B, B + 1, r.randrange(2 * B))))])
                        live[s] = 0
                    else:
                        ev.append(['hash_init', s, a2])
                        live[s] = SIZE[a2]
                elif k < .6:
                    ev.append(['hash_update', s, data(r, r.choice((0, 1, 7, 8, B - 1, B, B + 1, r.randrange(2 * B))))])
                elif k < .8:
                    d = r.randrange(3)
                    if d != s:
                        ev.append(['hash_copy', d, s])
                        live[d] = live[s]
                else:
                    ev.append(['hash_final', s, live.pop(s)])
            for s in sorted(live):
                ev.append(['hash_final', s, live[s]])
            tr.append(ev)
    c.run('HashTrace', tr)
