"""C07: Poly1305, ChaCha20-Poly1305, secret box."""
import models
import vt
from c01 import data

P = 2**130 - 5
CLAMP = 0x0ffffffc0ffffffc0ffffffc0fffffff


def targets(r):
    """Accumulator values next to the modulus and with extreme limbs in both representations."""
    k = r.randrange(6)
    if k == 0:
        return r.choice(list(range(0, 6)) + [P - i for i in range(1, 7)])
    if k == 1:
        return 2**128 * r.randrange(4) + r.choice((0, 1, 2**128 - 1, 2**128 - 2, 2**128 - 5)) % 2**130 % P
    cuts = (0, 44, 88, 130) if r.random() < .5 else (0, 26, 52, 78, 104, 130)
    v = 0
    for a, b in zip(cuts, cuts[1:]):
        w = b - a
        v |= r.choice((0, 1, 2**w - 1, 2**w - 2, 2**w - 5, 2**w - 6, 2**(w - 1), r.getrandbits(w))) << a
    return v % P


def rkey(r):
    k = r.randrange(5)
    if k == 0:
        b = r.choice((0, 1, 2, 3, 4, 5, 0x0fffffff, 1 << 124, CLAMP, CLAMP - 3))
    elif k == 1:
        b = sum(r.choice((0, 0xffffffff, 1, 4, 0x0ffffffc, r.getrandbits(32))) << (32 * i) for i in range(4))
    else:
        b = r.getrandbits(128)
    return b


def craft(r):
    """A key and message after which the accumulator has a chosen value."""
    raw = rkey(r)
    rr = raw & CLAMP
    s = r.choice((0, 1, 2**128 - 1, 2**128 - 2, 2**64 - 1, 2**127, 2**32 - 1, r.getrandbits(128)))
    key = raw.to_bytes(16, 'little') + s.to_bytes(16, 'little')
    if not rr:
        return key, data(r, r.randrange(50))
    inv = pow(rr, P - 2, P)
    for _ in range(40):
        msg, acc = b'', 0
        for _ in range(r.randrange(0, 5)):
            b = r.choice((data(r, 16), b'\xff' * 16, bytes(16), b'\xfb' + b'\xff' * 15))
            # sometimes steer the intermediate accumulator as well
            if r.random() < .5:
                w = (targets(r) * inv - acc - 2**128) % P
                if w < 2**128:
                    b = w.to_bytes(16, 'little')
            msg += b
            acc = (acc + int.from_bytes(b, 'little') + 2**128) * rr % P
        n = r.choice((16, 16, 16, 16, 15, 8, 1))
        w = (targets(r) * inv - acc - (1 << (8 * n))) % P
        if w < 1 << (8 * n):
            return key, msg + w.to_bytes(n, 'little')
    return key, data(r, r.randrange(100))


def check(c):
    r = vt.rng('c07')
    k = 10 if vt.THOROUGH else 2
    hs = models.buffer_histories(c, 4, 13, 3, False)
    tr = []
    for _ in range(1500 * k):
        key, msg = craft(r)
        n = len(msg)
        if r.random() < .2:
            tr.append([['po_cuts', key, msg, 7]])
        else:
            a = r.randrange(n + 1)
            tr.append([['po_init', 0, key], ['po_update', 0, msg[:a]], ['po_update', 0, msg[a:]], ['po_final', 0]])
    for _ in range(200 * k):
        ev = [['po_init', 0, data(r, 32)]]
        tot = models.scale(r.choice(hs), 4, 16, r)
        for p in models.pieces(tot, data(r, tot[-1] if tot else 0)):
            ev.append(['po_update', 0, p])
            if r.random() < .15:
                ev.append(['po_pad', 0])
            if r.random() < .1:
                ev += [['sx_copy', 1, 0], ['po_update', 1, data(r, r.randrange(40))], ['po_final', 1]]
        tr.append(ev + [['po_final', 0]])
    for n in range(0, 300, 1 if vt.THOROUGH else 13):
        tr.append([['po_cuts', data(r, 32), data(r, n), 5]])
    # ChaCha20-Poly1305
    for _ in range(500 * k):
        key, iv = data(r, 32), data(r, r.choice((8, 12, 12, 12, 16, 24, 28, 32)))
        ta, tm = models.scale(r.choice(hs), 4, 16, r), models.scale(r.choice(hs), 4, r.choice((16, 64)), r)
        aad, msg = data(r, ta[-1] if ta else 0), data(r, tm[-1] if tm else 0)
        op = r.choice(('cp_enc', 'cp_enc', 'cp_dec', 'cp_dec', 'cp_auth'))
        ev = [['cp_init', 0, key, iv]]
        ev += [['cp_aad', 0, p] for p in models.pieces(ta, aad)]
        if r.random() < .1:
            ev.append(['cp_auth', 0, b''])
        for p in models.pieces(tm, msg):
            ev.append([op, 0, p] + ([] if op == 'cp_auth' else [r.randrange(2)]))
            if r.random() < .1:
                ev += [['sx_copy', 1, 0], ['cp_enc', 1, data(r, r.randrange(80)), 0], ['cp_final', 1]]
        tr.append(ev + [['cp_final', 0]])
    # secret boxes: sealed by one call, opened unchanged and with one change
    exes = vt.build_all(['w64', 'w32', 'rel'])
    req = []
    for n in list(range(0, 70, 1 if vt.THOROUGH else 3)) + [95, 96, 97, 127, 128, 129, 500]:
        req.append((data(r, n), data(r, 32), data(r, 24)))
    for (m, key, nonce), rs in zip(req, vt.drive(exes['rel'], [[['sb_seal', *q]] for q in req])):
        box = bytes.fromhex(rs[0][0])
        tr.append([['sb_seal', m, key, nonce], ['sb_open', box, key, nonce]])
        for _ in range(12 * k):
            b, ke, no = bytearray(box), bytearray(key), bytearray(nonce)
            w = r.randrange(8)
            t = (b, b, b, ke, no)[w] if w < 5 else None
            if w < 5:
                t[r.randrange(len(t))] ^= 1 << r.randrange(8)
            elif w == 5:
                b = b[:r.randrange(len(b))]
            elif w == 6:
                b += data(r, 1)
            else:
                b = bytearray(data(r, r.randrange(20)))
            tr.append([['sb_open', bytes(b), bytes(ke), bytes(no)]])
        if r.random() < .1:
            for i in range(128):
                b = bytearray(box)
                b[i // 8] ^= 1 << i % 8
                tr.append([['sb_open', bytes(b), key, nonce]])
    for _ in range(20):
        tr.append([['sb_derive', data(r, 32)]])
    c.run('StreamTrace', tr, exes=exes)
