"""C17: DSA."""
import vt
from c01 import data
from pk import *


def digests(r, qs):
    out = [data(r, n) for n in (0, 1, qs - 1, qs, qs + 1, 20, 28, 32, 48, 64)]
    return out + [b'\0' * qs, b'\xff' * qs, b'\xff' * (qs + 5), b'\0' * (qs - 1) + b'\1', b'\x80' + b'\0' * (qs - 1), b'\0' * qs + b'\xff']


def reduce(m, q):
    b = m[:(q.bit_length() + 7) // 8]
    v = int.from_bytes(b, 'big')
    return v % q


def check(c):
    r = vt.rng('c17')
    big = 8 if vt.THOROUGH else 2
    ent = lambda: data(r, 32)
    tr = []
    add = lambda *e: tr.append([list(e)])
    ks = [dsakey(r, b, q, low) for b, q, low in ((512, 160, 0), (r.choice((513, 640)), 160, 1), (777, 224, 0), (512, 224, 1), (1024, 256, 0), (520, 256, 1))]
    ks += [Dsa(ks[0].p, ks[0].q, ks[0].g, x) for x in (1, 2, ks[0].q - 1)]
    if vt.THOROUGH:
        ks += [dsakey(r, 2048, 256), dsakey(r, 3072, 256), dsakey(r, 1024, 160)]
    for k in ks:
        p, q, g, y, x = k.v
        qs = k.qs
        two = lambda a, b: be(a, qs) + be(b, qs)
        for m in digests(r, qs) * big + [be(q, qs), be(q - 1, qs), be(q + 1, qs), be(2 * q, qs) if 2 * q < 256**qs else b'\1']:
            add('ds_sign', m, k.priv, ent())
            if r.random() < 0.3:
                add('ds_sign', m, k.priv, ent())
            d = reduce(m, q)
            n = r.randrange(1, q)
            a, b = k.sig(d, n)
            s = two(a, b)
            add('ds_verify', m, s, k.pub)
            add('ds_verify', m, two(a, q - b), k.pub)
            bad = [two(0, b), two(a, 0), two(0, 0), two(b, a), two((a + 1) % q, b), two(a, (b + 1) % q), s[:-1], s + b'\0', s[1:], b'', seq([a, b]), two(q, b), two(a, q), two(q, q),
                   two(1, b), two(a, 1), two(q - 1, b), two(a, q - 1), b'\xff' * (2 * qs)]
            for z in (a + q, b + q, q + 1):
                if z < 256**qs:
                    bad += [two(z, b), two(a, z)]
            if a + q < 256**qs and b + q < 256**qs:
                bad.append(two(a + q, b + q))
            t = bytearray(s)
            t[r.randrange(len(t))] ^= 1 << r.randrange(8)
            bad.append(bytes(t))
            for z in bad if vt.THOROUGH else r.sample(bad, 9):
                add('ds_verify', m, z, k.pub)
            t = bytearray(m) or bytearray(1)
            t[r.randrange(len(t))] ^= 1 << r.randrange(8)
            add('ds_verify', bytes(t), s, k.pub)
            add('ds_verify', m + b'\0', s, k.pub)
            add('ds_verify', m[:-1], s, k.pub)
            add('ds_verify', b'\0' + m, s, k.pub)
            v = [y, p, q, g]
            v[r.randrange(4)] += r.choice((1, 2))
            add('ds_verify', m, s, seq(v))
        # signatures with chosen u1, u2: extreme exponents
        for _ in range(6 * big):
            u1, u2 = r.choice((0, 1, q - 1, r.randrange(q))), r.choice((1, q - 1, r.randrange(1, q)))
            a = pow(g, u1, p) * pow(y, u2, p) % p % q
            if a:
                b = a * pow(u2, -1, q) % q
                d = u1 * b % q
                add('ds_verify', be(d, qs), two(a, b), k.pub)
                add('ds_verify', be(d, qs), two(a, q - b), k.pub)
                if d + q < 256**qs:
                    add('ds_verify', be(d + q, qs), two(a, b), k.pub)
        # keys that are not keys
        for v in ([p, q, g, y, 0], [p, q, g, y, q], [p, q, g, 1, x], [p, q, g, p - 1, x], [p, q, 1, y, x], [p, q, p - 1, y, x], [p + 1, q, g, y, x], [p, q + 1, g, y, x],
                  [p, q, g, 0, x], [p, q, g, p, x], [p, q, 0, y, x], [p >> 1 | 1, q, g, y, x]):
            add('ds_sign', b'abc', vseq(v), ent())
            add('ds_verify', b'abc', two(1, 1), seq([v[3]] + v[:3]))
            add('ds_derive', seq([v[3]] + v[:3]), k.priv)
            add('ds_derive', k.pub, vseq(v))
        # shared secrets
        for _ in range(5 * big):
            o = Dsa(p, q, g, r.choice((1, 2, q - 1, r.randrange(1, q), r.randrange(1, q))))
            add('ds_derive', o.pub, k.priv)
            add('ds_derive', k.pub, o.priv)
        z = r.randrange(2, p - 1)
        add('ds_derive', seq([z, p, q, g]), k.priv), add('ds_derive', seq([p - y, p, q, g]), k.priv)
        add('ds_derive', ks[1].pub, k.priv), add('ds_derive', seq([y, p, q, pow(g, 2, p)]), k.priv), add('ds_derive', k.pub, vseq([p, q, pow(g, 2, p), y, x]))
        # the private key's own public value is not used
        add('ds_derive', k.pub, vseq([p, q, g, z, x])), add('ds_sign', b'hello', vseq([p, q, g, z, x]), ent())
        # signature forms
        for _ in range(12 * big):
            n = r.choice((qs, qs, qs, 20, 28, 32, 31, 33, 1, 0))
            v = [r.choice((0, 1, 127, 128, 255, q - 1, q, q + 1, r.getrandbits(8 * qs), r.getrandbits(8 * qs - 9), 256**qs - 1, r.getrandbits(256), (1 << 256) - 1, 1 << 256, r.getrandbits(60))) for _ in '12']
            add('ds_sigimp', seq(v), n)
            w = b''.join(be(z % 256**n, n) for z in v)
            add('ds_sigexp', w, r.choice((n, n, 0)))
            add('ds_sigexp', w + b'\0' * r.choice((1, 2)), r.choice((n, 0)))
            add('ds_sigexp', w, max(0, n + r.choice((-1, 1))))
        v = k.sig(5, 12345)
        for m in malformed(r, [num(z) for z in v]):
            add('ds_sigimp', m, qs)
    # a generator of tiny order makes zero values occur: r = 0 two times out of three
    for qb in (160, 224, 256) if vt.THOROUGH else (160, 256):
        k = degenerate(r, 3, qb, 0)
        for _ in range(12):
            add('ds_sign', data(r, 32), k.priv, ent())
    # ... and s = 0 one time out of five
    for qb, cc in ((160, 2), (224, 3)):
        k = degenerate(r, 5, qb, cc)
        for e in range(4):
            for _ in range(4):
                m = -pow(cc, e, k.q) * k.x % k.q
                add('ds_sign', be(m, k.qs) + data(r, r.randrange(3)), k.priv, ent())
    c.run('DsaTrace', tr, variants=('w64', 'l32'))
