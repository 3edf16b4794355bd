"""C27: runs that differ in secrets only look the same from outside."""
import concurrent.futures, hashlib, json, os, struct, subprocess
import vt
from c01 import data
from ec import CURVES, EDS, MTS
from pk import *
from c15 import nz


def numbers(r, n, fb, k, zero=True):
    """Encodings of secret scalars: the limits, extreme patterns, refused values, random values."""
    b = n.bit_length()
    vs = [1, 2, n - 1, n - 2, n // 2, n // 2 + 1, 1 << (b - 1), (1 << (b - 1)) - 1, 1 << 64, (1 << 64) - 1, 1 << (b // 2), (1 << (b // 2)) - 1,
          int('55' * (b // 8), 16), int('aa' * (b // 8), 16) % n, n - (1 << 64), n - (1 << (b // 2)), 3, 16, 15, n - 16]
    r.shuffle(vs)
    vs = [n - 1, 1] + vs[:k] + [r.randrange(1, n) for _ in range(k)]
    out = [fb(v) for v in vs]
    full = len(out[0])
    out += [b'\xff' * full]
    if zero:
        out += [fb(0), fb(n)]
    return out


def raws(r, size, k):
    out = [b'\0' * size, b'\xff' * size, b'\x55' * size, b'\xaa' * size, b'\0' * (size - 1) + b'\1', b'\x80' + b'\0' * (size - 1),
           b'\1' + b'\0' * (size - 1), b'\0' * (size - 1) + b'\x80', b'\x7f' + b'\xff' * (size - 1), b'\xff' * (size - 1) + b'\x7f']
    r.shuffle(out)
    return out[:k] + [data(r, size) for _ in range(k)]


def wei(r, k):
    out = []
    for C, blind in [(C, 0) for C in CURVES] + [(r.choice(CURVES), 1) for _ in range(2)]:
        name = C.name + 'r' * blind
        sb = lambda v: v.to_bytes(C.sb(1).__len__(), 'big')
        secs = lambda: numbers(r, C.n, sb, k)
        P = C.point(r)
        pub = C.enc(P, 2)
        msg = data(r, 32)
        for op, rest in (('w_create', ()), ('w_verify', ()), ('w_export', ()), ('w_neg', ()), ('w_inv', ()), ('w_derive', (pub,)),
                         ('w_sign', (msg,)), ('w_tadd', (sb(r.randrange(1, C.n)),)), ('w_tmul', (sb(r.randrange(1, C.n)),)), ('w_import', ()),
                         ('w_bsign', (msg,)), ('w_xcreate', ()), ('w_xsign', (msg, data(r, 32))), ('w_xderive', (C.fb(P[0]),)),
                         ('w_xtadd', (sb(r.randrange(1, C.n)),)), ('w_xtmul', (sb(r.randrange(1, C.n)),)), ('w_xinv', ()), ('w_xexport', ())):
            if op in ('w_bsign', 'w_xsign') and C.name != 'secp256k1' and not vt.THOROUGH and r.random() < 0.6:
                continue
            out.append([[op, name, s] + list(rest) for s in secs()])
        # secret tweaks too
        out.append([['w_tadd', name, s, t] for s, t in zip(secs(), reversed(secs()))])
        out.append([['w_tmul', name, s, t] for s, t in zip(secs(), reversed(secs()))])
        out.append([['w_rand', name, s] for s in raws(r, 32, k)])
    return out


def mont(r, k):
    out = []
    for C in MTS:
        secs = lambda: raws(r, C.fs, k) + [C.fb(4 * C.n), C.fb(8 * C.n)][:k]
        us = [C.fb(C.u), C.fb(r.randrange(C.p)), C.fb(0), C.fb(1), C.fb(r.choice(sorted(C.small())))]
        out.append([['m_create', C.name, s] for s in secs()])
        for u in us:
            out.append([['m_derive', C.name, s, u] for s in secs()])
        out.append([['m_verify', C.name, s] for s in secs()])
        out.append([['m_import', C.name, s] for s in secs()])
    return out


def edw(r, k):
    out = []
    for C, blind in [(C, 0) for C in EDS] + [(r.choice(EDS), 1)]:
        name = C.name + 'r' * blind
        size = len(C.enc(C.g))
        ps = size
        ss = C.sb(1).__len__()
        priv = lambda: raws(r, ps, k)
        fb = lambda v: v.to_bytes(ss, 'little')
        secs = lambda: numbers(r, C.n, fb, k) + raws(r, ss, 2)
        pub = C.enc(C.mul(r.randrange(1, C.n), C.g))
        msg = data(r, 40)
        ctx = data(r, 3)
        for op, rest in (('e_create', ()), ('e_expand', ()), ('e_convert', ()), ('e_sign', (msg, r.choice((-1, 0, 1)), b'')), ('e_sign', (msg, 1, ctx)),
                         ('e_derive', (pub,))):
            out.append([[op, name, s] + list(rest) for s in priv()])
        for op, rest in (('e_fromsc', ()), ('e_sverify', ()), ('e_szero', ()), ('e_sclamp', ()), ('e_sadd', (fb(r.randrange(C.n)),)),
                         ('e_smul', (fb(r.randrange(C.n)),)), ('e_sred', ()), ('e_sneg', ()), ('e_sinv', ()), ('e_derives', (pub,))):
            out.append([[op, name, s] + list(rest) for s in secs()])
        out.append([['e_signs', name, s, p, msg, 0, ctx] for s, p in zip(secs(), (data(r, ps) for _ in range(99)))])
        out.append([['e_signa', name, s, t, msg, 0, ctx] for s, t in zip(priv(), secs())])
        out.append([['e_signm', name, s, t, msg, 0, ctx] for s, t in zip(priv(), secs())])
        rpub = C.rist(C.mul(r.randrange(1, C.n), C.g))
        for op, rest in (('r_create', ()), ('r_derive', (rpub,)), ('r_verify', ()), ('r_neg', ()), ('r_inv', ()), ('r_tadd', (fb(r.randrange(C.n)),)),
                         ('r_tmul', (fb(r.randrange(1, C.n)),))):
            out.append([[op, name, s] + list(rest) for s in secs()])
        out.append([['r_uniform', name, s] for s in raws(r, 2 * ss, k)])
        if not name.startswith('ed25519'):  # (there half of the random numbers are refused)
            out.append([['e_rand', name, s] for s in raws(r, 32, k)])
    return out


def utils(r, k):
    out = []
    for n in (0, 1, 2, 15, 16, 31, 32, 33, 64, 100):
        x = data(r, n)
        ys = [x] + [x[:i] + bytes([x[i] ^ r.choice((1, 128, 255))]) + x[i + 1:] for i in sorted({0, n // 2, n - 1}) if 0 <= i < n] + raws(r, n, k) * (n > 0)
        out.append([['u_equal', x, y] for y in ys])
        out.append([['u_cmp', x, y] for y in ys])
        out.append([['u_cmp', y, x] for y in ys])
        if n:
            out.append([['u_xor', x, y] for y in ys])
            out.append([['u_xor3', x, y] for y in ys])
    for n in (1, 8, 16, 32):
        bl = []
        for p in range(1, n + 1):
            b = data(r, n - p) + bytes([p]) * p
            bl += [b, b[:-1] + bytes([p ^ 1]), data(r, n)[:-1] + bytes([p]), b[:n - p] + bytes([p ^ 128]) + b[n - p + 1:]]
        bl += raws(r, n, 2)
        out.append([['u_unpad', b] for b in bl[:60]])
    return out


def ask(exe, e):
    """The result of one call."""
    return vt._drive(exe, [[e]], 60)[0][0][:-2][:2]


def near(r, tag, k):
    """The value, values that first differ from it at the first, the last and other positions, and others."""
    n = len(tag)
    ps = {0, 1, n // 2, n - 1, r.randrange(n)}
    return [tag] + [tag[:i] + bytes([tag[i] ^ r.choice((1, 128, 255))]) + tag[i + 1:] for i in sorted(ps)] + raws(r, n, k)


def aead(r, k, exe):
    out = []
    for n in (0, 1, 15, 16, 17, 64, 100):
        m = data(r, n)
        out.append([['a_poly', s, m] for s in raws(r, 32, k)])
        out.append([['a_poly', data(r, 32), s] for s in (raws(r, n, k) if n else [m])])
        if n:
            for op, ks, ns in (('a_chacha', 32, 12), ('a_chacha', 16, 8), ('a_salsa', 32, 8), ('a_chacha', 32, 24)):
                iv = data(r, ns)
                out.append([[op, s, iv, m] for s in raws(r, ks, k)])
        key, iv = data(r, 32), data(r, 24)
        out.append([['a_box', s, iv, data(r, 16 + n)] for s in raws(r, 32, k)])
        box = bytes.fromhex(ask(exe, ['a_boxseal', key, iv, m])[0])
        out.append([['a_box', key, iv, t + box[16:]] for t in near(r, box[:16], k)])
    for h in ('sha256', 'sha512', 'sha1', 'shake256', 'blake2b512', 'sha3_256'):
        for n in (16, 64, 200):
            m = data(r, n)
            out.append([['a_hmac', h, s, m] for s in raws(r, 32, k)])
    for ci, ks, bs in (('aes128', 16, 16), ('serpent128', 16, 16)):
        for mode in ('gcm', 'ccm', 'eax'):
            for n in (0, 5, 16, 40):
                key, iv, aad, ct = data(r, ks), data(r, 12), data(r, 7), data(r, n)
                ct, tag = map(bytes.fromhex, ask(exe, ['a_seal', ci, mode, key, iv, aad, ct]))
                out.append([['a_open', ci, mode, key, iv, aad, ct, t] for t in near(r, tag, k)])
    return out


def limbs(r, k):
    out = []
    for n in (1, 2, 4, 9):
        B = 8 * n
        le = lambda v: v.to_bytes(B, 'little')
        pool = lambda: raws(r, B, k)
        flags = [b'\0', b'\1', b'\x80', b'\xff']
        for op in ('l_select', 'l_swap', 'l_zero', 'l_cadd', 'l_csub', 'l_cneg'):
            out.append([[op, x, y, f] for x, y in zip(pool(), pool()) for f in flags])
        for op in ('l_sadd', 'l_ssub', 'l_sadd1', 'l_ssub1', 'l_pred'):
            ps = list(zip(pool(), pool()))
            out.append([[op, x, y] for x, y in ps] + [[op, x, x] for x, y in ps[:3]])
        out.append([['l_tab', t, bytes([i])] for t in raws(r, 8 * B, 1) for i in range(8)])
        m = le(r.getrandbits(8 * B) | 1 | 1 << (8 * B - 1))
        out.append([['l_powm', x, y, m] for x, y in zip(pool(), pool())])
        p = next(p for p in iter(lambda: r.getrandbits(8 * B) | 1 | 1 << (8 * B - 1), 0) if prime(p))
        out.append([['l_inv', x, le(p)] for x in pool() + [le(p), le(p - 1), le(1)]])
    return out


def groups(r, k, exe):
    return wei(r, k) + mont(r, k) + edw(r, k) + utils(r, k) + aead(r, k, exe) + limbs(r, k)


def rsa(r, k):
    out = []
    for bits in (512, 768):
        # (the fields of the two keys below have the same lengths)
        while True:
            key = rsakey(r, bits, 65537)
            if [v.bit_length() // 8 for v in key.v] == [v.bit_length() // 8 for v in Rsa(key.q, key.p, key.e).v]:
                break
        n = key.k
        enc = lambda em: be(pow(int.from_bytes(em, 'big'), key.e, key.n), n)
        ent = data(r, 32)
        bl = []
        for ml in (0, 1, 16, n - 11):
            bl += [b'\0\2' + nz(r, n - 3 - ml) + b'\0' + nz(r, ml) for _ in range(2)]
        bad = [b'\0\1' + x[2:] for x in bl[:2]] + [b'\1\2' + x[2:] for x in bl[:2]]
        bad += [b'\0\2' + nz(r, n - 2)] + [b'\0\2' + nz(r, i) + b'\0' + nz(r, n - 3 - i) for i in range(8)]
        bad = [b for b in bad if int.from_bytes(b, 'big') < key.n]
        # the same public key with the prime factors the other way round
        ks = [key.priv, Rsa(key.q, key.p, key.e).priv]
        both = lambda op, bs, *rest: [[op, x, enc(b)] + list(rest) for i, b in enumerate(bs) for x in (ks if i % 4 == 0 else [r.choice(ks)])]
        out.append(both('k_dec', bad + bl, ent))
        out.append(both('k_deckey', bad + bl, ent, 16))
        out.append([['k_sign', x, h, ent] for h in [data(r, 32)] for x in ks])
        bl = [oaep('sha1', n, b'ab', data(r, 20), msg=data(r, 5)) for _ in range(4)]
        bad = []
        for i in range(4):
            bad += [oaep('sha1', n, b'ab', data(r, 20), msg=data(r, 5), first=i & 1 and 1), oaep('sha1', n, b'ac', data(r, 20), msg=data(r, 5)),
                    oaep('sha1', n, b'ab', data(r, 20), msg=data(r, 5), sep=2), oaep('sha1', n, b'ab', data(r, 20), ps=b'\0\0\5', msg=b'\0' * i)]
        lh = hashlib.sha1(b'ab').digest()
        bad += [oaep('sha1', n, b'ab', data(r, 20), msg=data(r, 5), lhash=x) for x in near(r, lh, 1)[1:]]
        bad = [b for b in bad if int.from_bytes(b, 'big') < key.n]
        out.append(both('k_decoaep', bad + bl, b'ab', ent))
    return out


def dsa(r, k):
    out = []
    for b, q in ((512, 160), (1024, 256)):
        # an order just under a power of two, so that no nonce is refused
        n = (1 << q) - 1
        while not prime(n):
            n -= 2
        G = dsagroup(r, b, n)
        ks = []
        while len(ks) < 4 + k:
            x = Dsa(*G, r.choice((n - 1 - r.randrange(99), r.randrange(1 << (q - 1), n), 1 << (q - 1))))
            if not ks or [len(be(v)) for v in x.v] == [len(be(v)) for v in ks[0].v] and len(x.priv) == len(ks[0].priv):
                ks.append(x)
        K = Dsa(*G, r.randrange(1, n))
        m, e = data(r, 20), data(r, 32)
        out.append([['k_dsign', x.priv, m, e] for x in ks])
        out.append([['k_dderive', x.priv, K.pub] for x in ks])
    return out


# the released configurations at several optimisation levels; in the last two the multi-precision arithmetic, whose
# timing depends on the blinded numbers it handles, is not watched
OBSERVE = ['-fsanitize=kernel-address', '--param', 'asan-instrumentation-with-call-threshold=0', '--param', 'asan-stack=0', '--param',
           'asan-globals=0', '-fsanitize-coverage=trace-pc', '-g1']
WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in 'memcpy memmove memset memcmp malloc torsion__mpz_powm'.split())]
BUILDS = {
    'o64': (vt.WIDE, '-O2', ()), 'o32': ([], '-O1', ()), 's64': (vt.WIDE, '-O0', ()), 's32': ([], '-O0', ()),
    'p64': (vt.WIDE, '-O3', ()), 'p32': ([], '-O3', ()),
    'k64': (vt.WIDE, '-O2', ('mpi.c',)), 'k32': ([], '-O0', ('mpi.c',)),
}


def build(name):
    wide, opt, blind = BUILDS[name]
    defs = vt.COMMON + wide
    H = os.path.join(vt.VERIF, 'harness')
    with concurrent.futures.ThreadPoolExecutor(vt.NCPU) as ex:
        jobs = []
        for f in sorted(vt.lib_sources(), key=lambda f: -os.path.getsize(f)):
            fl = [opt] + OBSERVE + (['-finstrument-functions'] if os.path.basename(f) in blind else [])
            jobs.append(ex.submit(vt._compile, f, [vt.REPO + '/include'], defs, fl))
        jobs.append(ex.submit(vt._compile, H + '/ct_leak.c', [], defs, [opt] + OBSERVE))
        for f in ('drv', 'ct_rt', 'ct_ops'):
            jobs.append(ex.submit(vt._compile, H + '/%s.c' % f, [vt.REPO + '/include', H], defs, ['-O1', '-g1']))
        objs = [j.result() for j in jobs]
    exe = os.path.join(vt.BUILD, 'bin', 'ct-%s-%s' % (name, hashlib.sha256(repr((objs, WRAP)).encode()).hexdigest()[:16]))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        p = vt.sh([vt.CC] + objs + ['-o', exe + '.%d' % os.getpid(), '-lpthread', '-lm'] + WRAP)
        if p.returncode:
            raise vt.CheckError('linking failed:\n' + p.stderr.decode()[-3000:])
        os.rename(exe + '.%d' % os.getpid(), exe)
    return exe


def where(exe, a, b):
    """Source positions at which the observations of two calls part."""
    d = os.path.join(vt.scratch(), 'dump')
    inp = ''.join(' '.join([e[0]] + [vt.tok(x) for x in e[1:]]) + '\n' for e in (a, b))
    subprocess.run([exe], input=inp.encode(), stdout=subprocess.DEVNULL, env=dict(vt.ENV, VT_CT_DUMP=d))
    x, y = (open(d + k, 'rb').read() for k in '01')
    n = min(len(x), len(y)) // 8
    x, y = (struct.unpack('<%dQ' % n, z[:8 * n]) for z in (x, y))
    i = next((i for i in range(n) if x[i] != y[i]), n)
    out = []
    for z in (x, y):
        pcs = [hex(v >> 4) for v in z[max(0, i - 200):i + 1] if v & 15 == 1][-2:]
        t = vt.sh(['addr2line', '-se', exe] + pcs).stdout.decode().split('\n')
        out.append(' '.join(s.split(' ')[0] for s in t if s))
    return 'event %d after %s' % (i, ' / '.join(sorted(set(out))))


def locate(c, exes, first):
    for v in c.violations[first:]:
        try:
            es = v['events']
            e = es[v['event']]
            cmd = lambda i: v['commands'][i]
            j = next(i for i in range(v['event']) if es[i]['op'] == e['op'] and es[i]['r'][es[i]['r'].index('|'):] != e['r'][e['r'].index('|'):])
            raw = lambda i: [cmd(i)[0]] + [untok(t) for t in cmd(i)[1:]]
            v['what'] = 'observations part at %s; %s' % (where(exes[v['variant']], raw(j), raw(v['event'])), v['what'])
        except Exception as x:
            vt.log('not located:', repr(x))


def untok(t):
    return bytes.fromhex(t[1:]) if t[0] == 'x' else t[1:] if t[0] == 's' else int(t)


def controls(c, exe):
    """The observer must see a branch, an index and an early exit that depend on a secret."""
    tr = [[['z_branch', b'\0'], ['z_branch', b'\1']], [['z_index', b'\0'], ['z_index', b'\7']],
          [['z_memcmp', b'\1' * 40, b'\1' * 40], ['z_memcmp', b'\1' * 40, b'\1' * 20 + b'\2' * 20]]]
    val = vt.validate('ConstTrace', vt.events(tr, vt.drive(exe, tr)))
    if [x[:2] for x in val.rejects] != [(0, 1), (1, 1), (2, 1)]:
        raise vt.CheckError('the observer misses deliberate leaks: %r' % (val.rejects,))


def check(c):
    c.model('ConstTimeModel')
    r = vt.rng('c27')
    k = 10 if vt.THOROUGH else 3
    names = list(BUILDS) if vt.THOROUGH else ['o64', 'o32', 's64', 'k64', 'k32']
    exes = {n: build(n) for n in names}
    vt.log('built')
    controls(c, exes['o64'])
    full = {n: exes[n] for n in names if n[0] != 'k'}
    for group, ex in ((groups(r, k, exes['o64']), full), (rsa(r, k) + dsa(r, k), {n: exes[n] for n in names if n[0] == 'k'})):
        v0 = len(c.violations)
        c.run('ConstTrace', group, exes=ex)
        locate(c, exes, v0)
    c.coverage['watched_builds'] = {n: BUILDS[n][1] for n in names}
