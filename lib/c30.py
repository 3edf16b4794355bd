"""C30: memory given back to the allocator holds no secret."""
import concurrent.futures, hashlib, os
import vt
from ec import CURVES, EDS, MTS
from pk import *
from c15 import nz

WRAP = ['-Wl,--wrap=free,--wrap=realloc']
data = lambda r, n: r.randbytes(n)      # secrets that cannot be met by chance
BUILDS = {'w64': vt.WIDE, 'w32': []}


def build(name):
    defs = vt.COMMON + BUILDS[name]
    H = os.path.join(vt.VERIF, 'harness')
    with concurrent.futures.ThreadPoolExecutor(vt.NCPU) as ex:
        jobs = [ex.submit(vt._compile, f, [vt.REPO + '/include'], defs, ['-O2'])
                for f in sorted(vt.lib_sources(), key=lambda f: -os.path.getsize(f))]
        jobs.append(ex.submit(vt._compile, H + '/ct_leak.c', [], defs, ['-O2']))
        for f in ('drv', 'er_rt', 'ct_ops', 'er_ops'):
            jobs.append(ex.submit(vt._compile, H + '/%s.c' % f, [vt.REPO + '/include', H], defs, ['-O1']))
        objs = [j.result() for j in jobs]
    exe = os.path.join(vt.BUILD, 'bin', 'er-%s-%s' % (name, hashlib.sha256(repr((objs, WRAP)).encode()).hexdigest()[:16]))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        p = vt.sh([vt.CC] + objs + ['-o', exe + '.%d' % os.getpid(), '-lpthread', '-lm'] + WRAP)
        if p.returncode:
            raise vt.CheckError('linking failed:\n' + p.stderr.decode()[-3000:])
        os.rename(exe + '.%d' % os.getpid(), exe)
    return exe


def ask(exe, es):
    """What the calls return, without the observation."""
    out = vt._drive(exe, [[e] for e in es], 120)
    return [o[0][:o[0].index('|')] for o in out]


def fields(der):
    """The integers of a key."""
    i = 2 + (der[1] & 127 if der[1] & 128 else 0)
    out = []
    while i < len(der):
        l, i = der[i + 1], i + 2
        if l & 128:
            c = l & 127
            l, i = int.from_bytes(der[i:i + c], 'big'), i + c
        out.append(int.from_bytes(der[i:i + l], 'big'))
        i += l
    return out


def secrets(K):
    """The private parts of a key and of the numbers it comes from (half of phi: the other half is that of n)."""
    phi = be((K.p - 1) * (K.q - 1))
    return [be(v) for v in K.v[2:] + [K.p - 1, K.q - 1, K.lam]] + [phi[len(phi) // 2:]]


def rsa(r, k):
    out = []
    for bits in (512, 513, 768, 1024)[:2 + k // 3]:
        K = rsakey(r, bits, 65537)
        n, x = K.k, secrets(K)
        ent = data(r, 32)
        enc = lambda em: be(pow(int.from_bytes(em, 'big'), K.e, K.n), n)
        one = lambda *e: out.append([list(e) + x])
        V = K.v

        def keys(f):
            """The key, and the key with one wrong part."""
            for i in range(-1, 8):
                w = list(V)
                if i >= 0:
                    w[i] = r.choice((w[i] ^ 1, w[i] + 2, w[i] - 2))
                yield f(w)

        def cut(b):
            return [b[:r.randrange(1, len(b))] for _ in range(3)] + [b + b'\0']

        for P in [*keys(vseq), *cut(K.priv)]:
            one('k_rpub', P), one('k_rverify', P), one('k_rexport', P), one('k_rbits', P), one('k_sign', P, data(r, 32), ent), one('k_rpss', P, data(r, 32), ent)
        # what is decrypted, and the ways in which that fails
        t = data(r, 20)
        em = b'\0\2' + nz(r, n - 3 - 20) + b'\0' + t
        for z in (enc(em), enc(b'\0\1' + em[2:]), enc(em[:2] + nz(r, n - 2)), enc(em)[:-1], b'\xff' * n):
            for P in [*keys(vseq)][:3]:
                for e in (['k_dec', P, z, ent], ['k_deckey', P, z, ent, 20], ['k_deckey', P, z, ent, 19]):
                    out.append([e + x + [t, em]])
        s, t = data(r, 20), data(r, 16)
        eo = oaep('sha1', n, b'ab', s, msg=t)
        for z in (enc(eo), enc(b'\0' + eo[1:-1] + b'\0'), b'\xff' * n):
            for P in [*keys(vseq)][:3]:
                out.append([['k_decoaep', P, z, b'ab', ent] + x + [t, eo]])
    return out


def dsa(r, k, exe):
    out = []
    for b, q in ((512, 160), (1024, 256))[:1 + k // 2]:
        K = dsakey(r, b, q)
        x = [be(K.x)]
        O = Dsa(K.p, K.q, K.g, r.randrange(1, K.q))
        V = [K.p, K.q, K.g, K.y, K.x]

        def keys(f):
            for i in range(-1, 4):
                w = list(V)
                if i >= 0:
                    w[i] = r.choice((w[i] ^ 1, w[i] + 2, w[i] - 2))
                yield f(w)
            yield f(V)[:r.randrange(1, len(f(V)))]
            yield f(V) + b'\0'

        for P in keys(vseq):
            one = lambda *e: out.append([list(e) + x])
            one('k_dderive', P, O.pub), one('k_dderive', P, O.pub[:-1]), one('k_dpub', P), one('k_dverify', P), one('k_dbits', P), one('k_dexport', P), one('k_dparams', P)
            for l in (0, q // 8, 100):
                one('k_dsign', P, data(r, l), data(r, 32))
        for P in [*keys(plain), plain(V[:3] + [0, V[4]]), plain([V[0], V[1], V[2] + 1, 0, V[4]]), plain([V[0] + 1, *V[1:3], 0, V[4]])]:
            out.append([['k_dimport', P] + x])
        for _ in range(k):
            e = ['k_dgen', seq(V[:3]), data(r, 32)]
            out.append([e + [be(fields(bytes.fromhex(ask(exe, [e])[0][1]))[-1])]])
    return out


def salsa8(b):
    x = [int.from_bytes(b[i:i + 4], 'little') for i in range(0, 64, 4)]
    y = list(x)
    rot = lambda v, n: (v << n | v >> (32 - n)) & 0xffffffff
    for _ in range(4):
        for q in ((0, 4, 8, 12), (5, 9, 13, 1), (10, 14, 2, 6), (15, 3, 7, 11), (0, 1, 2, 3), (5, 6, 7, 4), (10, 11, 8, 9), (15, 12, 13, 14)):
            for i, n in enumerate((7, 9, 13, 18)):
                x[q[(i + 1) % 4]] ^= rot((x[q[i]] + x[q[(i + 3) % 4]]) & 0xffffffff, n)
    return b''.join(((u + v) & 0xffffffff).to_bytes(4, 'little') for u, v in zip(x, y))


def romix(b, N):
    """The blocks that scrypt fills its table with, and the block it ends with."""
    def mix(b):
        x, y = b[-64:], []
        for i in range(0, len(b), 64):
            x = salsa8(xor(x, b[i:i + 64]))
            y.append(x)
        return b''.join(y[::2] + y[1::2])
    v = []
    for _ in range(N):
        v.append(b)
        b = mix(b)
    for _ in range(N):
        b = mix(xor(b, v[int.from_bytes(b[-64:-60], 'little') % N]))
    return v, b


def scrypt(r, k):
    out = []
    for N, R, P in ((2, 1, 1), (4, 1, 2), (16, 2, 1), (2, 3, 2), (64, 1, 1), (2, 8, 3))[:3 + k]:
        pw, salt = data(r, 20), data(r, 16)
        b = hashlib.pbkdf2_hmac('sha256', pw, salt, 1, P * 128 * R)
        mixed = [romix(b[i:i + 128 * R], N) for i in range(0, len(b), 128 * R)]
        end = b''.join(m[1] for m in mixed)
        if hashlib.pbkdf2_hmac('sha256', pw, end, 1, 64) != hashlib.scrypt(pw, salt=salt, n=N, r=R, p=P, dklen=64):
            raise vt.CheckError('the blocks of scrypt are not understood')
        out.append([['k_scrypt', pw, salt, N, R, P, pw, b, end] + [v for m in mixed for v in (m[0][0], m[0][N // 2], m[0][-1])]])
    return out


def ecc(r, k):
    """These work on the stack alone; curves do not."""
    out = []
    for i in range(6):
        out += [[['k_wend', i, data(r, 32)]] for _ in range(k)]
    for i in range(3):
        out += [[['k_eend', i, data(r, 32)]] for _ in range(k)]
    for C in CURVES:
        d, m = C.sb(r.randrange(1 << (C.n.bit_length() - 3), C.n)), data(r, 32)
        out += [[[o, C.name, d, d]] for o in ('w_create', 'w_export', 'w_xcreate')]
        out += [[[o, C.name, d, m, d]] for o in ('w_sign', 'w_bsign')] + [[['w_derive', C.name, d, C.enc(C.point(r), 2), d]], [['w_xsign', C.name, d, m, data(r, 32), d]]]
    for C in MTS:
        s = data(r, C.fs)
        out += [[['m_create', C.name, s, s]], [['m_derive', C.name, s, C.fb(r.randrange(C.p)), s]]]
    for C in EDS:
        s = data(r, len(C.enc(C.g)))
        out += [[[o, C.name, s, s]] for o in ('e_create', 'e_expand', 'e_convert')] + [[['e_sign', C.name, s, data(r, 40), -1, b'', s]]]
    return out


def check(c):
    r = vt.rng('c30')
    k = 6 if vt.THOROUGH else 2
    c.model('ResidueModel', 'INIT Init\nNEXT Next\nCONSTANTS MaxSteps = %d Vars = 3 Erase = TRUE Grow = TRUE\nINVARIANTS Clean\n' % (9 if vt.THOROUGH else 8))
    for rule in ('Erase = FALSE Grow = TRUE', 'Erase = TRUE Grow = FALSE'):
        c.model('ResidueModel', 'INIT Init\nNEXT Next\nCONSTANTS MaxSteps = 8 Vars = 3 %s\nINVARIANTS Clean\n' % rule, expect='Clean')
    exes = {n: build(n) for n in BUILDS}
    x, y = data(r, 32), data(r, 32)
    tr = [[['z_free', x, x]], [['z_grow', x, x]], [['z_free', x, y]]]
    t = vt.validate('ResidueTrace', vt.events(tr, vt.drive(exes['w64'], tr)))
    if sorted(z[0] for z in t.rejects) != [0, 1]:
        raise vt.CheckError('the observer misses copies left on purpose: %r' % (t.rejects,))
    c.run('ResidueTrace', rsa(r, k) + dsa(r, k, exes['w64']) + scrypt(r, k) + ecc(r, k), exes=exes)
