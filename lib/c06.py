"""C06: stream ciphers."""
import models
import vt
from c01 import data

NONCES = (8, 12, 16, 24, 28, 32)
CTRS = (0, 1, 2, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x100000000, 0xfffffffeffffffff, 0xffffffff00000000,
        0x7fffffffffffffff, 0xfffffffffffffffe, 0xffffffffffffffff)


def nonce_for(r, n):
    b = bytearray(data(r, n))
    if r.random() < .5 and n >= 16:
        # the tail of the nonce holds the block counter: make it carry
        f = 8 if n in (16, 32) else n - 16
        off = n - 16 if n in (16, 32) else 16
        k = r.choice((4, 8, f))
        for j in range(k):
            b[off + j] = 0xff
            b[n - 1 - j] = 0xff
        if r.random() < .5:
            b[off] = 0xfe
    if n == 12 and r.random() < .5:
        b[8:12] = b'\xff\xff\xff\xff'
        if r.random() < .5:
            b[8] = 0xfe
    return bytes(b)


def new(r, f=None):
    f = f or r.choice(('arc4', 'chacha20', 'salsa20'))
    if f == 'arc4':
        return f, data(r, r.choice((1, 2, 5, 16, 32, 255, 256, r.randrange(1, 257)))), b'', bytes(8)
    ctr = r.choice(CTRS) if r.random() < .7 else r.getrandbits(64)
    return f, data(r, r.choice((16, 32))), nonce_for(r, r.choice(NONCES)), ctr.to_bytes(8, 'big')


def check(c):
    r = vt.rng('c06')
    if vt.THOROUGH:
        c.model('StreamTest')
    hs = models.buffer_histories(c, 4, 13, 3, False)
    tr = []
    k = 10 if vt.THOROUGH else 2
    # every combination of nonce size, key size, initial counter
    for f in ('chacha20', 'salsa20'):
        for n in NONCES:
            for kl in (16, 32):
                for ctr in CTRS:
                    for _ in range(k):
                        key, nonce = data(r, kl), nonce_for(r, n)
                        tot = models.scale(r.choice(hs), 4, 64, r)
                        tot = tot + [tot[-1] + r.randrange(130)] if tot else [r.randrange(200)]
                        msg = data(r, tot[-1])
                        tr.append([['st_init', 0, f, key, nonce, ctr.to_bytes(8, 'big')]]
                                  + [['st_crypt', 0, p, r.randrange(2)] for p in models.pieces(tot, msg)])
                    if r.random() < .3:
                        tr.append([['st_cuts', f, data(r, kl), nonce_for(r, n), ctr.to_bytes(8, 'big'), data(r, r.choice((63, 64, 65, 128, 130, 193))), 7]])
        for _ in range(60 * k):
            tr.append([['st_derive', f, data(r, r.choice((16, 32))), data(r, 16)]])
    for kl in range(1, 257) if vt.THOROUGH else [1, 2, 3, 5, 8, 16, 127, 128, 255, 256] + [r.randrange(1, 257) for _ in range(20)]:
        tot = models.scale(r.choice(hs), 4, 64, r) or [0]
        msg = data(r, tot[-1])
        tr.append([['st_init', 0, 'arc4', data(r, kl), b'', b'']] + [['st_crypt', 0, p, r.randrange(2)] for p in models.pieces(tot, msg)])
        tr.append([['st_cuts', 'arc4', data(r, kl), b'', b'', data(r, r.randrange(90)), 11]])
    # long streams: position far into the keystream, every offset in a block
    for f in ('arc4', 'chacha20', 'salsa20'):
        for _ in range(3 * k):
            ev = [['st_init', 0, *new(r, f)]]
            for _ in range(30):
                ev.append(['st_crypt', 0, data(r, r.choice((0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, r.randrange(300)))), r.randrange(2)])
            tr.append(ev)
    # interleaved contexts, copies
    for _ in range(60 * k):
        ev, live = [], set()
        for _ in range(20):
            s = r.randrange(4)
            if s not in live or r.random() < .1:
                ev.append(['st_init', s, *new(r)])
                live.add(s)
            elif r.random() < .15:
                d = r.randrange(4)
                if d != s:
                    ev.append(['sx_copy', d, s])
                    live.add(d)
            else:
                ev.append(['st_crypt', s, data(r, r.randrange(150)), r.randrange(2)])
        tr.append(ev)
    c.run('StreamTrace', tr, variants=('w64', 'w32', 'rel'))
