"""C16: RSA and DSA key encodings and validity."""
import vt
from c01 import data
from pk import *


def rsa_mutations(r, k):
    """Sets of eight numbers that are almost a key."""
    n, e, d, p, q, dp, dq, qi = k.v
    out = [list(k.v)]

    def w(**kw):
        names = ('n', 'e', 'd', 'p', 'q', 'dp', 'dq', 'qi')
        out.append([kw.get(x, v) for x, v in zip(names, k.v)])
    for i in range(8):
        for x in (0, 1, 2, 3, k.v[i] + 1, k.v[i] + 2, k.v[i] - 1, max(0, k.v[i] - 2), k.v[i] ^ (1 << r.randrange(max(2, k.v[i].bit_length()))), k.v[i] << 1,
                  1 << 16384, (1 << 16384) - 1):
            v = list(k.v)
            v[i] = x
            out.append(v)
    phi = (p - 1) * (q - 1)
    for m in (1, 2, 3):
        w(d=d + m * k.lam), w(d=d + m * k.lam, dp=(d + m * k.lam) % (p - 1), dq=(d + m * k.lam) % (q - 1))
    for x in (d + (p - 1), d + (q - 1), d + 12345 * (p - 1), d + 12345 * (q - 1), d - (p - 1), d - (q - 1), d + 2, d - 2, d ^ 4, d + k.lam // 2, d + phi, phi - d, k.lam - d, d // 3):
        if x > 0:                                           # a wrong private exponent, the rest consistent with it
            w(d=x, dp=x % (p - 1), dq=x % (q - 1))
    for x in (dp + (q - 1), dq + (p - 1), dp ^ 1, dq ^ 1):
        w(dp=x), w(dq=x)
    w(d=d + phi), w(d=phi), w(d=phi - 1), w(d=k.lam), w(d=k.lam - d)
    w(dp=dp + p - 1), w(dq=dq + q - 1), w(qi=qi + p), w(qi=p - qi), w(dp=dq, dq=dp), w(dp=d), w(dq=d), w(dp=p - 1), w(dq=q - 1)
    w(p=q, q=p), w(p=q, q=p, dp=dq, dq=dp), w(p=q, q=p, dp=dq, dq=dp, qi=pow(p, -1, q))
    w(e=e + k.lam), w(e=d, d=e), w(n=p * p, q=p), w(n=n * p), w(n=p * q * 3, q=3 * q), w(p=n, q=1), w(p=1, q=n), w(p=p * q)
    w(e=e * 2), w(e=1, d=1, dp=1, dq=1), w(e=pow(d + 0, -1, k.lam))
    w(qi=pow(p, -1, q)), w(qi=(qi * 2) % p)
    return out


def big_rsa(r, bits, pbits=None):
    """Numbers in the right relations (the factors need not be prime)."""
    pbits = pbits or (bits + 1) // 2
    while True:
        p = r.getrandbits(pbits) | 1 | 3 << (pbits - 2)
        q = r.getrandbits(bits - pbits) | 1 | 3 << (bits - pbits - 2)
        if (p * q).bit_length() == bits and gcd(p, q) == 1 and gcd(lcm(p - 1, q - 1), 65537) == 1:
            return Rsa(p, q, 65537)


def dsa_mutations(r, k):
    p, q, g, y, x = k.v
    out = [list(k.v)]
    for i in range(5):
        for z in (0, 1, 2, k.v[i] + 1, k.v[i] + 2, max(0, k.v[i] - 1), k.v[i] ^ (1 << r.randrange(k.v[i].bit_length())), p - 1, p - 2, p, q, q - 1, q + 2, 1 << 10000,
                  k.v[i] << 1, r.getrandbits(160) | 1 << 159, p - k.v[i] if k.v[i] < p else 5):
            v = list(k.v)
            v[i] = z
            out.append(v)
    h = pow(3, (p - 1) // 2, p)                             # elements of other orders
    out += [[p, q, p - g, y, x], [p, q, g, p - y, x], [p, q, g, y * g % p, x], [p, q, g, pow(g, q - x, p), x], [p, q, g, y, q - x], [p, q, g, g, 1], [p, q, y, g, x], [p, q, g, h, x]]
    out += [[p, q, 3, pow(3, x, p), x], [p, q, pow(3, (p - 1) // q, p), y, x], [p, q, g, y, x + q], [p + 2 * q, q, g, y, x]]
    return out


def check(c):
    r = vt.rng('c16')
    big = 5 if vt.THOROUGH else 1
    ent = lambda: data(r, 32)
    tr = []
    add = lambda *e: tr.append([list(e)])
    none = b''

    # ---------------------------------------------------------------- RSA
    sizes = r.sample((512, 513, 520, 527, 600, 768, 1023, 1024), 3 * big if big == 1 else 8)
    keys = [rsakey(r, b) for b in sizes] + [rsakey(r, 600, pbits=200), rsakey(r, 640, pbits=400)]
    giants = [big_rsa(r, b, pb) for b, pb in ((2048, None), (16384, None), (16383, 8300), (4096, 60), (16385, None), (511, None), (512, 12))]

    def rsa_all(v):
        d, u = vseq(v), seq(v[:2])
        add('rs_privbits', d), add('rs_privexp', d), add('rs_pubcreate', d)
        if r.random() < 0.4:
            add('rs_pubbits', u), add('rs_pubexp', u), add('rs_pubimp', plain(v[:2]))

    def imp(v, hint=none, tail=none):
        add('rs_privimp', plain(v) + tail, r.choice((ent(), ent(), none)), hint)
    for k in keys:
        ms = rsa_mutations(r, k)
        for v in ms if k is keys[0] or vt.THOROUGH else r.sample(ms, 50):
            rsa_all(v)
            if max(x.bit_length() for x in v) < 3000:
                imp(v)
        n, e, d, p, q, dp, dq, qi = k.v
        f = plain([p, q])
        for _ in range(3):
            imp([n, e, d, p, q, 0, 0, 0]), imp([0, e, 0, p, q, 0, 0, 0]), imp([0, e, 0, q, p, 0, 0, 0]), imp([0, 0, d, p, q, 0, 0, 0]), imp([0, 0, d, q, p, 0, 0, 0])
            imp([n, e, d, 0, 0, 0, 0, 0], f), imp([n, e, d, p, 0, 0, 0, 0], f), imp([n, e, d, 0, q, dp, dq, qi], f)
            imp([n, e, d + k.lam, 0, 0, 0, 0, 0], f), imp([n, e, d + 3 * k.lam, 0, 0, 0, 0, 0], f)
            imp([n, e, d + 2, 0, 0, 0, 0, 0]), imp([n, e, 0, 0, 0, 0, 0, 0]), imp([n, 0, d, 0, 0, 0, 0, 0]), imp([0, e, d, 0, 0, 0, 0, 0]), imp([n, e, 1, 0, 0, 0, 0, 0])
            imp([0, 0, d + k.lam, p, q, 0, 0, 0]), imp([0, 0, (p - 1) * (q - 1) - d, p, q, 0, 0, 0]), imp([0, 0, d, p, p, 0, 0, 0]), imp([0, e, 0, p, p, 0, 0, 0]), imp([0, e, 0, p + 1, q, 0, 0, 0])
            imp([0, e, 0, 1, q, 0, 0, 0]), imp([0, 0, d, 1, q, 0, 0, 0]), imp([0, 0, 1, p, q, 0, 0, 0]), imp([0, 0, 2, p, q, 0, 0, 0]), imp([0, 4, 0, p, q, 0, 0, 0]), imp([0, 0, 0, p, q, 0, 0, 0])
            imp([0, (1 << 33) + 1, 0, p, q, 0, 0, 0]), imp([0, 0, r.randrange(n) | 1, p, q, 0, 0, 0])
            if not vt.THOROUGH:
                break
        imp(k.v, none, data(r, 5))
        pl = plain(k.v)
        for i in {0, 1, len(pl) - 1, r.randrange(len(pl)), r.randrange(len(pl))}:
            add('rs_privimp', pl[:i], ent(), none)
        lead = b''.join(be((x.bit_length() + 7) // 8 + 2, 2) + b'\0\0' + be(x) for x in k.v)   # leading zeros are no matter here
        add('rs_privimp', lead, ent(), none), add('rs_pubimp', lead, )
        pl = plain(k.v[:2])
        for i in (0, 1, 3, len(pl) - 1, len(pl) - 2):
            add('rs_pubimp', pl[:i])
        add('rs_pubimp', pl + b'\0')
        parts = [b'\2\1\0'] + [num(x) for x in k.v]
        for _ in range(2 * big):
            for m in malformed(r, parts):
                add(r.choice(('rs_privbits', 'rs_privexp', 'rs_pubcreate')), m)
            for m in malformed(r, parts[1:3]):
                add(r.choice(('rs_pubbits', 'rs_pubexp')), m)
        for ver in (b'\2\1\1', b'\2\1\2', b'\2\2\0\0', b'\2\1\xff', b'\2\0', b'\3\1\0', b'', b'\2\2\1\0'):
            add('rs_privbits', tlv(48, ver + b''.join(parts[1:])))
        add('rs_privbits', vseq(k.v[:7])), add('rs_privbits', seq(k.v)), add('rs_privbits', k.pub), add('rs_pubbits', k.priv), add('rs_pubbits', vseq(k.v[:2]))
    # recovery of the factors, in particular with few square roots to take
    for m4 in (3, 3, 1) + (None,) * (2 * big):
        k = rsakey(r, r.choice((512, 516, 600)), mod4=m4)
        for j in range(6):
            imp([k.n, k.e, k.d + j * k.lam, 0, 0, 0, 0, 0], plain([k.p, k.q]))
    k = rsakey(r, 540, pbits=60)
    imp([k.n, k.e, k.d, 0, 0, 0, 0, 0], plain([k.p, k.q]))
    for g in giants:
        rsa_all(g.v)
        add('rs_pubbits', g.pub), add('rs_pubexp', g.pub), add('rs_pubimp', plain(g.v[:2]))
        for i in r.sample(range(8), 3):
            v = list(g.v)
            v[i] += r.choice((1, 2))
            rsa_all(v)
    for nb in (510, 511, 512, 513, 1000, 16383, 16384, 16385):
        n = r.getrandbits(nb) | 1 << (nb - 1) | 1
        for e in (0, 1, 2, 3, 4, 65537, (1 << 33) - 1, 1 << 33, (1 << 33) + 1, (1 << 40) + 1):
            add('rs_pubbits', seq([n, e])), add('rs_pubimp', plain([n, e]))
        add('rs_pubbits', seq([n - 1, 3]))
    # generation: several keys from one program, so that seeds decide them
    for e, bs in ((3, (512, 513)), (65537, (512, 640)), ((1 << 33) - 1, (520,)), (17, (767,)), (0x100000001, (531,))) + (((257, (1024, 1025)), (5, (2048,))) if vt.THOROUGH else ()):
        for b in bs:
            s1, s2 = ent(), ent()
            h = '%x' % e
            tr.append([['rs_gen', b, h, s1], ['rs_gen', b, h, s2], ['rs_gen', b, h, s1], ['rs_gen', b, h, bytes([s1[0] ^ 1]) + s1[1:]], ['rs_gen', b, h, s1[:31] + bytes([s1[31] ^ 1])]])
    for b, e in ((511, 3), (0, 3), (16385, 3), (512, 1), (512, 2), (512, 4), (512, 0), (512, 1 << 33), (512, (1 << 33) + 1), (512, (1 << 64) - 1), (600, 65536)):
        tr.append([['rs_gen', b, '%x' % e, ent()]])

    # ---------------------------------------------------------------- DSA
    dk = [dsakey(r, 512, 160), dsakey(r, r.choice((600, 777, 1024)), 224), dsakey(r, r.choice((513, 768)), 256), dsakey(r, 520, 160, low=True)]
    if vt.THOROUGH:
        dk += [dsakey(r, 1024, 160), dsakey(r, 2048, 256)]
    for k in dk:
        ms = dsa_mutations(r, k)
        for v in ms if vt.THOROUGH else r.sample(ms, 60):
            p, q, g, y, x = v
            add('ds_params', seq([p, q, g])), add('ds_pub', seq([y, p, q, g])), add('ds_priv', vseq(v))
            add('ds_privimp', plain(v)), add('ds_pubimp', plain(v[:4])), add('ds_parimp', plain(v[:3]))
            for op, s in (('ds_parexp', seq([p, q, g])), ('ds_pubexp', seq([y, p, q, g])), ('ds_privexp', vseq(v)), ('ds_pubcreate', vseq(v)), ('ds_parcreate', vseq(v)),
                          ('ds_parcreate', seq([y, p, q, g]))):
                if r.random() < 0.4:
                    add(op, s)
            add('ds_privimp', plain([p, q, g, 0, x]))
        lead = b''.join(be((x.bit_length() + 7) // 8 + 1, 2) + b'\0' + be(x) for x in k.v)
        add('ds_privimp', lead), add('ds_pubimp', lead), add('ds_parimp', lead)
        pl = plain(k.v)
        for i in {0, 1, len(pl) - 1, r.randrange(len(pl)), r.randrange(len(pl))}:
            add('ds_privimp', pl[:i]), add('ds_pubimp', pl[:i]), add('ds_parimp', pl[:i])
        V = b'\2\1\0'
        for _ in range(2 * big):
            for m in malformed(r, [V] + [num(x) for x in k.v]):
                add(r.choice(('ds_priv', 'ds_privexp', 'ds_pubcreate', 'ds_parcreate')), m)
            for m in malformed(r, [num(x) for x in (k.y, k.p, k.q, k.g)]):
                add(r.choice(('ds_pub', 'ds_pubexp', 'ds_parcreate')), m)
            for m in malformed(r, [num(x) for x in (k.p, k.q, k.g)]):
                add(r.choice(('ds_params', 'ds_parexp')), m)
        for a in (k.params, k.pub, k.priv):
            add('ds_params', a), add('ds_pub', a), add('ds_priv', a), add('ds_parcreate', a)
        s1, s2 = ent(), ent()
        tr.append([['ds_create', s1, k.params], ['ds_create', s2, k.params], ['ds_create', s1, k.params], ['ds_create', s1[:31] + bytes([s1[31] ^ 128]), k.params], ['ds_create', s1, seq([k.p, k.q, 1])]])
    # sizes
    for pb in (511, 512, 513, 9999, 10000, 10001):
        p = r.getrandbits(pb) | 1 << (pb - 1) | 1
        for qb in (159, 160, 161, 224, 225, 255, 256, 257):
            q = r.getrandbits(qb) | 1 << (qb - 1) | 1
            if pb < 1000 or qb in (160, 256):
                v = [p, q, r.randrange(2, p - 1), r.randrange(2, p - 1), r.randrange(1, q)]
                add('ds_params', seq(v[:3])), add('ds_pub', seq([v[3]] + v[:3])), add('ds_priv', vseq(v)), add('ds_parimp', plain(v[:3])), add('ds_pubimp', plain(v[:4])), add('ds_privimp', plain(v))
                add('ds_params', seq([p - 1] + v[1:3])), add('ds_params', seq([p, q - 1, v[2]]))
    s1, s2 = ent(), ent()
    tr.append([['ds_gen', s1, 1024], ['ds_gen', s2, 1024], ['ds_gen', s1, 1024]] if vt.THOROUGH else [['ds_gen', s1, 1024], ['ds_gen', s2, 1024]])
    tr.append([['ds_genpriv', s1, 1024], ['ds_genpriv', s1, 1024]] + ([['ds_genpriv', s2, 1024]] if vt.THOROUGH else []))
    for b in (0, 512, 1023, 1025, 2047, 10001, 4096):
        tr.append([['ds_gen', ent(), b]])
        tr.append([['ds_genpriv', ent(), b]])
    R = [t for t in tr if t[0][0].startswith('rs')]
    D = [t for t in tr if t[0][0].startswith('ds')]
    c.run('RsaTrace', R, variants=('w64', 'l32'))
    c.run('DsaTrace', D, variants=('w64', 'l32'))
    if vt.THOROUGH:
        c.run('DsaTrace', [[['ds_gen', ent(), 2048]], [['ds_gen', ent(), 3072]], [['ds_genpriv', ent(), 2048]]], variants=('rel',))
