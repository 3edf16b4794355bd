"""C15: RSA encryption and veiling."""
import hashlib
import vt
from c01 import data, IDS, SIZE
from c14 import keys
from pk import *

PY = {'md5': 'md5', 'sha1': 'sha1', 'sha224': 'sha224', 'sha256': 'sha256', 'sha384': 'sha384', 'sha512': 'sha512',
      'sha3_224': 'sha3_224', 'sha3_256': 'sha3_256', 'sha3_384': 'sha3_384', 'sha3_512': 'sha3_512',
      'blake2b512': 'blake2b', 'blake2s256': 'blake2s'}


def nz(r, n):
    return bytes(r.randrange(1, 256) for _ in range(n))


def v15_blocks(r, k, sizes):
    """(block, embedded size) of well-formed and ill-formed PKCS #1 v1.5 blocks."""
    out = []
    n = k.k
    for _ in range(sizes):
        m = data(r, r.choice((0, 1, 16, n - 11, n - 12, r.randrange(n - 10))))
        ok = b'\0\2' + nz(r, n - 3 - len(m)) + b'\0' + m
        out.append(ok)
        z = n - 1 - len(m)
        x = bytearray(ok)
        x[r.choice((0, 1, 1))] ^= r.choice((1, 3, 1 << r.randrange(8)))
        out.append(bytes(x))
        i = r.choice((2, 3, 8, 9, 10, r.randrange(2, n)))                   # a zero byte inside the padding
        x = bytearray(ok)
        x[i] = 0
        out.append(bytes(x))
        x = bytearray(ok)
        x[z] = r.randrange(1, 256)                                          # the separator missing
        out.append(bytes(x))
    out.append(b'\0\2' + nz(r, n - 2))                                      # no zero at all
    out.append(b'\0\2' + nz(r, n - 3) + b'\0')
    for i in range(2, 13):                                                  # padding of 0..10 bytes
        out.append(b'\0\2' + nz(r, i - 2) + b'\0' + data(r, n - i - 1))
    out += [b'\0\2' + b'\0' * (n - 2), b'\0' * n, b'\0\1' + b'\xff' * (n - 4) + b'\0\1', b'\0\0' + nz(r, n - 2)]
    return out


def oaep_blocks(r, k, h, label):
    hl = hashlib.new(h).digest_size
    n = k.k
    top = n - 2 * hl - 2
    if top < 0:
        return []
    out = []
    sd = lambda: data(r, hl)
    m = data(r, r.choice((0, min(1, top), top, max(0, top - 1), r.randrange(top + 1))))
    lh = hashlib.new(h, label).digest()
    out.append(oaep(h, n, label, sd(), msg=m))
    for f in (1, 2, r.randrange(1, 256)):
        out.append(oaep(h, n, label, sd(), msg=m, first=f))
    for i in {0, hl - 1, r.randrange(hl)}:
        x = bytearray(lh)
        x[i] ^= 1 << r.randrange(8)
        out.append(oaep(h, n, label, sd(), msg=m, lhash=bytes(x)))
    for s in (0, 2, 3, 0x81, 255, r.randrange(2, 256)):
        out.append(oaep(h, n, label, sd(), msg=m, sep=s))
    if top - len(m) > 0:
        for b in (1, 2, 255):
            ps = bytearray(top - len(m))
            ps[r.choice((0, len(ps) - 1, r.randrange(len(ps))))] = b
            out.append(oaep(h, n, label, sd(), msg=m, ps=bytes(ps)))
    out.append(oaep(h, n, label, sd(), db=lh + bytes(n - 2 * hl - 1)))      # no separator
    out.append(oaep(h, n, label, sd(), db=lh + bytes(n - 2 * hl - 2) + b'\1'))
    out.append(oaep(h, n, label, sd(), db=lh + b'\1' + data(r, top)))
    # two defects whose differences cancel under addition and exclusive or
    x = bytearray(lh)
    x[0] ^= 0x40
    x[-1] ^= 0x40
    out.append(oaep(h, n, label, sd(), msg=m, lhash=bytes(x)))
    x[0], x[-1] = (lh[0] + 1) & 255, (lh[-1] - 1) & 255
    out.append(oaep(h, n, label, sd(), msg=m, lhash=bytes(x)))
    return out


def ciphers(r, k, c):
    v = int.from_bytes(c, 'big')
    x = bytearray(c)
    x[r.randrange(len(x))] ^= 1 << r.randrange(8)
    return [c[:-1], c + b'\0', b'\0' + c, b'', bytes(x), be(v + k.n, k.k) if v + k.n < 256**k.k else b'\xff' * k.k] + \
           [be(z, k.k) for z in (0, 1, k.n - 1, k.n)]


def check(c):
    r = vt.rng('c15')
    exe = vt.build('rel')
    KS = keys(r, 16 if vt.THOROUGH else 4)
    ent = lambda: data(r, 32)
    tr = []
    add = lambda *e: tr.append([list(e)])
    big = 6 if vt.THOROUGH else 2
    enc, oa = [], []
    names = IDS + ['none', 'bad-1', 'bad99']
    for k in KS:
        n = k.k
        for ln in {0, 1, n - 11, n - 10, n - 12, n, n - 9} | {r.randrange(n - 10) for _ in range(4 * big)}:
            enc.append((k, data(r, ln), ['rs_enc', data(r, ln), k.pub, ent()]))
        for a in names if vt.THOROUGH or k is KS[-1] else r.sample(names, 14):
            h = SIZE.get(a, 20)
            top = n - 2 * h - 2
            lab = data(r, r.choice((0, 0, 1, 5, 64, 200)))
            for ln in {0, 1, top, top + 1} if top >= 0 else {0, 1}:
                oa.append((k, a, lab, ['rs_encoaep', a, data(r, max(0, ln)), k.pub, lab, ent()]))
    base = vt.drive(exe, [[x[-1]] for x in enc] + [[x[-1]] for x in oa])
    for (k, m, ev), res in zip(enc, base):
        tr.append([ev])
        t = res[0][0]
        if t not in ('-', 'CRASH', 'TIMEOUT') and len(t) == 2 * k.k + 1:
            ct = bytes.fromhex(t[:-1])
            add('rs_dec', ct, k.priv, ent())
            for n in {len(ev[1]), max(0, len(ev[1]) + r.choice((-1, 1, 2)))}:
                add('rs_deckey', ct, n, k.priv, ent())
            for x in r.sample(ciphers(r, k, ct), 2):
                add('rs_dec', x, k.priv, ent())
                add('rs_deckey', x, r.choice((0, 16, len(ev[1]))), k.priv, ent())
    for (k, a, lab, ev), res in zip(oa, base[len(enc):]):
        tr.append([ev])
        t = res[0][0]
        if t in ('-', 'CRASH', 'TIMEOUT') or len(t) != 2 * k.k + 1:
            add('rs_decoaep', a, data(r, k.k), k.priv, lab, ent())
            continue
        ct = bytes.fromhex(t[:-1])
        add('rs_decoaep', a, ct, k.priv, lab, ent())
        add('rs_decoaep', a, ct, k.priv, r.choice((lab + b'\0', lab[:-1] if lab else b'x', data(r, len(lab)) if lab else b'\0')), ent())
        add('rs_decoaep', r.choice(names), ct, k.priv, lab, ent())
        for x in r.sample(ciphers(r, k, ct), 2):
            add('rs_decoaep', a, x, k.priv, lab, ent())
    for k in KS:
        for b in v15_blocks(r, k, 5 * big):
            v = int.from_bytes(b, 'big')
            if v < k.n:
                ct = k.pubraw(v)
                add('rs_dec', ct, k.priv, ent())
                z = b.find(b'\0', 2)
                n = max(0, k.k - 1 - z)
                add('rs_deckey', ct, r.choice((n, n, n + 1, max(0, n - 1), 16, k.k - 11, k.k - 10)), k.priv, ent())
        for a in PY if vt.THOROUGH else r.sample(sorted(PY), 5):
            lab = data(r, r.choice((0, 3, 70)))
            for b in oaep_blocks(r, k, PY[a], lab):
                v = int.from_bytes(b, 'big')
                if v < k.n:
                    add('rs_decoaep', a, k.pubraw(v), k.priv, lab, ent())
    # every padding length with every key size around the smallest block
    for k in KS[:3]:
        for _ in range(20 * big):
            v = r.randrange(k.n)
            add('rs_dec', be(v, k.k), k.priv, ent())
    # unusable keys
    for k in KS[:3]:
        ct = k.pubraw(int.from_bytes(b'\0\2' + b'\7' * (k.k - 8) + b'\0hello', 'big'))
        for v in ([k.n, 1], [k.n, 4], [k.n + 1, k.e], [0, 3], [k.n, (1 << 33) + 1]):
            add('rs_enc', b'hi', seq(v), ent())
            add('rs_encoaep', 'md5', b'hi', seq(v), b'', ent())
            add('rs_veil', ct, k.bits + 20, seq(v), ent())
            add('rs_unveil', ct, 0, seq(v))
        for i in range(8):
            v = list(k.v)
            v[i] += 2
            add('rs_dec', ct, vseq(v), ent())
            add('rs_deckey', ct, 5, vseq(v), ent())
            add('rs_decoaep', 'md5', ct, vseq(v), b'', ent())
    # veiling
    for k in KS:
        for _ in range(14 * big):
            v = r.choice((0, 1, k.n - 1, r.randrange(k.n), r.randrange(k.n), k.n, k.n + 1))
            ct = be(v, k.k) if v < 256**k.k else b'\xff' * k.k
            bits = r.choice((0, 8, k.bits - 1, k.bits, k.bits + 1, k.bits + 2, k.bits + 7, k.bits + 8, k.k * 8, k.k * 8 + 1, k.bits + 64, k.bits * 2, r.randrange(k.bits, 2100), 16384, 16392, 16393))
            add('rs_veil', r.choice((ct, ct, ct, ct, ct, ct + b'\0', ct[1:])), bits, k.pub, ent())
            b2 = max(k.bits, r.choice((bits, k.bits + 9, k.bits + r.randrange(200))))
            if b2 <= 16392 and v < k.n:
                w = v + k.n * r.choice((0, ((1 << b2) - v - 1) // k.n, r.randrange(((1 << b2) - v - 1) // k.n + 1)))
                for x in (b2, 0, w.bit_length(), w.bit_length() - 1, 16392, 16393):
                    if r.random() < 0.5:
                        add('rs_unveil', be(w, (b2 + 7) // 8 + r.choice((0, 0, 0, 1, 3))), max(0, x), k.pub)
            add('rs_unveil', data(r, r.choice((0, 1, k.k - 1, k.k, k.k + 1, k.k + 9, 2048, 2049, 2050))), r.choice((0, k.bits, k.bits + 8, 16392)), k.pub)
    c.run('RsaTrace', tr, variants=('w64', 'l32'))
