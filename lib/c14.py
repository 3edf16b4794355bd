"""C14: RSA signatures."""
import vt
from c01 import data, IDS, SIZE
from pk import *

SIZES = (512, 513, 519, 520, 521, 527, 528, 529, 575, 640, 767, 768, 1017, 1023, 1024, 1025, 1031)


def keys(r, n):
    ks = [rsakey(r, b) for b in (r.sample(SIZES, n) if n < len(SIZES) else SIZES)]
    ks.append(rsakey(r, r.choice((521, 529, 601, 769, 1025))))      # one bit above a byte boundary
    ks.append(rsakey(r, r.choice((528, 600, 768, 1024))))
    ks.append(rsakey(r, 600, pbits=220))              # unbalanced, smaller factor first
    ks.append(rsakey(r, 600, pbits=420))
    k = rsakey(r, 512, e=65537)
    if k.d + k.lam < (k.p - 1) * (k.q - 1):
        k = Rsa(k.p, k.q, k.e, k.d + k.lam)           # private exponent above the least common multiple
    ks.append(k)
    ks.append(rsakey(r, 2048 if vt.THOROUGH else 1536))
    return ks


def flips(r, em, e):
    """Encodings with one altered byte in each region, and shifted or extended fields."""
    n = len(em)
    out = []
    for i in {0, 1, 2, 3, 10, n // 2, n - 1, n - 2, n - 20, r.randrange(n), r.randrange(n)}:
        if 0 <= i < n:
            x = bytearray(em)
            x[i] ^= r.choice((1, 1, 0x80, 0xff, 1 << r.randrange(8)))
            out.append(bytes(x))
    return out


def v15_defects(r, em):
    z = em.index(0, 2)
    t = em[z + 1:]
    n = len(em)
    out = flips(r, em, 0)
    out.append(em[:z - 1] + b'\0' + t + b'\0')                                   # shorter padding, trailing byte
    out.append(b'\0\1' + b'\xff' * 8 + b'\0' + t + data(r, n - 11 - len(t)))     # garbage after the digest
    out.append(b'\0\1' + b'\xff' * 3 + b'\0' + t + data(r, n - 6 - len(t)))
    out.append(b'\0\1' + b'\xff' * (z - 2) + b'\1' + t)
    out.append(b'\0\2' + em[2:])
    out.append(b'\1' + em[1:])
    out.append(b'\0\0' + em[2:])
    out.append(b'\0\1' + b'\0' * (z - 2) + b'\0' + t)
    for i in range(z, n):                                                        # every byte of the digest info
        if r.random() < 0.12 or i in (z, z + 1, z + 2, z + 3, z + 4, z + 5):
            x = bytearray(em)
            x[i] ^= 1 << r.randrange(8)
            out.append(bytes(x))
    i = t.find(b'\5\0\4')
    if t[:1] == b'\x30' and i > 0:                                               # the NULL parameter left out
        u = bytes([48, t[1] - 2, 48, t[3] - 2]) + t[4:i] + t[i + 2:]
        out.append(b'\0\1' + b'\xff' * (n - 3 - len(u)) + b'\0' + u)
        u = t[i + 4:]                                                            # the bare digest
        out.append(b'\0\1' + b'\xff' * (n - 3 - len(u)) + b'\0' + u)
        u = b'\x30\x81' + t[1:]                                                  # long form of a length
        if len(u) + 3 < n:
            out.append(b'\0\1' + b'\xff' * (n - 3 - len(u)) + b'\0' + u)
    return out


def sig_variants(r, k, s):
    v = int.from_bytes(s, 'big')
    out = [s[:-1], s + b'\0', b'\0' + s, s[1:], b'', be(v + k.n, k.k) if v + k.n < 256**k.k else b'\0' * k.k]
    out += [be(x, k.k) for x in (0, 1, 2, k.n - 1, k.n) if x < 256**k.k] + [b'\xff' * k.k, be(k.n - v, k.k)]
    x = bytearray(s)
    x[r.randrange(len(x))] ^= 1 << r.randrange(8)
    return out + [bytes(x)]


def check(c):
    r = vt.rng('c14')
    exe = vt.build('rel')
    N = 16 if vt.THOROUGH else 5
    KS = keys(r, N)
    ent = lambda: data(r, 32)
    tr = []
    add = lambda *e: tr.append([list(e)])
    todo, pss = [], []
    names = IDS + ['none', 'bad-1', 'bad33', 'bad99']
    for k in KS:
        for a in names if k is KS[-1] or vt.THOROUGH else r.sample(names, 12):
            h = SIZE.get(a, 0)
            m = data(r, h if a in SIZE else r.choice((0, 1, 20, 36, k.k - 11, k.k - 10, k.k - 12)))
            todo.append((k, a, m, ['rs_sign', a, m, k.priv, ent()]))
            if r.random() < 0.4:
                add('rs_sign', a, data(r, max(0, len(m) + r.choice((-1, 1, 5)))), k.priv, ent())
            em = pss_em_len(k.bits)
            for sl in {0, -1, r.choice((1, 8, h, em - 2 - h, em - 1 - h, k.k, k.k + 1, max(1, em - 3 - h)))}:
                if sl < -1 or a == 'none' and sl > 0:
                    continue
                pss.append((k, a, m if a in SIZE else data(r, 20), sl, ['rs_signpss', a, m if a in SIZE else data(r, 20), k.priv, sl, ent()]))
    # digests at the edge of what the modulus can carry
    for bits in range(512, 1040, 8) if vt.THOROUGH else (512, 600, 616, 624, 632, 640, 648, 656, 664, 752, 760, 792):
        k = rsakey(r, bits, e=65537)
        for a in ('sha512', 'sha384', 'whirlpool', 'sha256', 'blake2b512', 'md5sha1'):
            m = data(r, SIZE[a])
            todo.append((k, a, m, ['rs_sign', a, m, k.priv, ent()]))
            for sl in (0, -1, 1):
                pss.append((k, a, m, sl, ['rs_signpss', a, m, k.priv, sl, ent()]))
    base = vt.drive(exe, [[x[-1]] for x in todo] + [[x[-1]] for x in pss])
    for (k, a, m, ev), res in zip(todo, base):
        tr.append([ev])
        t = res[0][0]
        if t in ('-', 'CRASH', 'TIMEOUT'):
            add('rs_verify', a, m, data(r, k.k), k.pub)
            continue
        s = bytes.fromhex(t[:-1])
        if len(s) != k.k:
            continue
        add('rs_verify', a, m, s, k.pub)
        em = pow(int.from_bytes(s, 'big'), k.e, k.n).to_bytes(k.k, 'big')
        if em[:2] != b'\0\1':
            continue
        ds = v15_defects(r, em)
        for d in ds if vt.THOROUGH else r.sample(ds, min(9, len(ds))):
            x = int.from_bytes(d, 'big')
            if len(d) == k.k and x < k.n:
                add('rs_verify', a, m, k.raw(x), k.pub)
        for d in r.sample(sig_variants(r, k, s), 4):
            add('rs_verify', a, m, d, k.pub)
        add('rs_verify', r.choice(names), m, s, k.pub)
        x = bytearray(m) or bytearray(1)
        x[r.randrange(len(x))] ^= 1 << r.randrange(8)
        add('rs_verify', a, bytes(x), s, k.pub)
        add('rs_verify', a, m[:-1], s, k.pub)
        add('rs_verify', a, m + b'\0', s, k.pub)
    for (k, a, m, sl, ev), res in zip(pss, base[len(todo):]):
        tr.append([ev])
        t = res[0][0]
        if t in ('-', 'CRASH', 'TIMEOUT'):
            add('rs_verifypss', a, m, data(r, k.k), k.pub, sl)
            continue
        s = bytes.fromhex(t[:-1])
        if len(s) != k.k:
            continue
        h = SIZE[a]
        n = pss_em_len(k.bits)
        sal = n - 2 - h if sl == 0 else h if sl == -1 else sl
        em = pow(int.from_bytes(s, 'big'), k.e, k.n).to_bytes(k.k, 'big')
        off = k.k - n
        for x in (sl, 0, sal) if vt.THOROUGH else {sl, r.choice((0, sal))}:
            add('rs_verifypss', a, m, s, k.pub, x)
        for x in r.sample((-1, sal + 1, max(0, sal - 1), n - h - 2, n - h - 1, k.k, k.k + 1, h), 3):
            add('rs_verifypss', a, m, s, k.pub, x)
        # one change of the encoding: DB bits change with the masked ones
        sep = off + n - h - 2 - sal
        pos = [(off, 0x80 >> r.randrange(8)), (sep, 1), (sep, 3), (k.k - 1, 1 << r.randrange(8)), (k.k - 1 - h, 1), (k.k - 2, 0x80)]
        if sal:
            pos += [(sep + 1, 1), (k.k - 2 - h, 0x80)]
        for i in {off, off + 1, sep - 1, (off + sep) // 2}:
            if off <= i < sep:
                pos += [(i, 1), (i, 2), (i, 1 << r.randrange(7))]
        if off:
            pos += [(0, 1)]
        for i, b in pos if vt.THOROUGH else set(r.sample(pos, 6) + ([(0, 1)] if off else [])):
            x = bytearray(em)
            x[i] ^= b
            v = int.from_bytes(x, 'big')
            if v < k.n:
                for z in {0, sal}:
                    add('rs_verifypss', a, m, k.raw(v), k.pub, z)
        # bits of the first byte beyond the modulus size
        for b in range(8):
            x = bytearray(em)
            x[off] |= 1 << b
            v = int.from_bytes(x, 'big')
            if v < k.n and bytes(x) != em and r.random() < 0.5:
                add('rs_verifypss', a, m, k.raw(v), k.pub, r.choice((0, sal)))
        for d in r.sample(sig_variants(r, k, s), 2):
            add('rs_verifypss', a, m, d, k.pub, sl)
        x = bytearray(m)
        x[r.randrange(len(x))] ^= 1 << r.randrange(8)
        add('rs_verifypss', a, bytes(x), s, k.pub, sl)
        add('rs_verifypss', a, m[:-1], s, k.pub, sl)
        add('rs_verifypss', r.choice(names), m, s, k.pub, sl)
    # unusable keys
    for k in KS[:3]:
        m = data(r, 32)
        s = k.raw(5)
        for v in ([k.n, 1], [k.n, 4], [k.n + 1, k.e], [k.n >> (k.bits - 511) | 1, 3], [k.n, (1 << 33) + 1], [0, 3], [k.n, 0]):
            add('rs_verify', 'sha256', m, s, seq(v))
            add('rs_verifypss', 'sha256', m, s, seq(v), 0)
        for i in range(8):
            v = list(k.v)
            v[i] += 2
            add('rs_sign', 'sha256', m, vseq(v), ent())
            add('rs_signpss', 'sha256', m, vseq(v), -1, ent())
        add('rs_sign', 'sha256', m, k.pub, ent())
        add('rs_verify', 'sha256', m, s, k.priv)
    # the message as a number: sizes and values of the unhashed form
    for k in KS[:4]:
        for _ in range(6):
            m = r.choice((b'', b'\0', data(r, 1), b'\0' * 20, data(r, k.k - 11), b'\0\0' + data(r, 10)))
            t = b'\0\1' + b'\xff' * (k.k - len(m) - 3) + b'\0' + m
            add('rs_verify', 'none', m, k.raw(int.from_bytes(t, 'big')), k.pub)
            add('rs_verify', 'none', m + b'\0', k.raw(int.from_bytes(t, 'big')), k.pub)
            add('rs_verify', 'none', m[:-1], k.raw(int.from_bytes(t, 'big')), k.pub)
    c.run('RsaTrace', tr, variants=('w64', 'l32'))
