"""C01: incremental hashing."""
import models
import vt

IDS = ("blake2b160 blake2b256 blake2b384 blake2b512 blake2s128 blake2s160 blake2s224 blake2s256 gost94 hash160 hash256 "
       "keccak224 keccak256 keccak384 keccak512 md2 md4 md5 md5sha1 ripemd160 sha1 sha224 sha256 sha384 sha512 sha3_224 "
       "sha3_256 sha3_384 sha3_512 shake128 shake256 whirlpool").split()
BLOCK = {}
for i in IDS:
    BLOCK[i] = 64
for i in IDS[:4] + ['sha384', 'sha512']:
    BLOCK[i] = 128
BLOCK.update(gost94=32, md2=16, keccak224=144, sha3_224=144, keccak256=136, sha3_256=136, shake256=136, keccak384=104,
             sha3_384=104, keccak512=72, sha3_512=72, shake128=168)
SIZE = dict(zip(IDS, [20, 32, 48, 64, 16, 20, 28, 32, 32, 20, 32, 28, 32, 48, 64, 16, 16, 16, 36, 20, 20, 28, 32, 48, 64,
                      28, 32, 48, 64, 16, 32, 64]))


def data(r, n):
    """Random bytes, sometimes extreme."""
    k = r.randrange(8)
    if k == 0:
        return bytes(n)
    if k == 1:
        return b'\xff' * n
    if k == 2:
        return bytes(r.choice((0, 1, 127, 128, 255)) for _ in range(n))
    return r.randbytes(n)


def init(r, slot, a, named):
    if named:
        key = b''
        if a.startswith('blake2') and r.random() < .5:
            key = data(r, r.choice((1, 2, 15, 16, 31, 32) + ((33, 63, 64) if a[6] == 'b' else ())))
        return ['named_init', slot, a, key]
    return ['hash_init', slot, a]


def check(c):
    r = vt.rng('c01')
    tr = []
    # 1. cuttings generated by TLC, both eager and lazy buffering, on every hash and both interfaces
    # the accelerated evaluation of the specification agrees with its definitions
    if vt.THOROUGH:
        c.model('WordsTest', 'INIT Init\nNEXT Next\nINVARIANT Agree\n')
    c.model('HashTest', 'INIT Init\nNEXT Next\nCONSTANT Lens = {%s}\nINVARIANTS Agree KAgree SizeOk\n'
            % ('0, 1, 3, 55, 56, 64, 111, 112, 127, 128, 129, 135, 136, 137, 200' if vt.THOROUGH else '3, 112, 137'))
    hs = models.buffer_histories(c, 4, 9, 3, False)
    models.buffer_histories(c, 4, 9, 3, True)
    if vt.THOROUGH:
        c.model('BlockBuffer', 'INIT Init\nNEXT Next\nCONSTANTS B = 5 MaxTotal = 16 MaxCalls = 5 Lazy = FALSE\n'
                'INVARIANTS Conserved BlocksWhole Position\n')
        c.model('BlockBuffer', 'INIT Init\nNEXT Next\nCONSTANTS B = 5 MaxTotal = 16 MaxCalls = 5 Lazy = TRUE\n'
                'INVARIANTS Conserved BlocksWhole Position\n')
    for a in IDS:
        tr.append([['hash_sizes', a]])
        B = BLOCK[a]
        sel = hs
        for h in sel:
            named = r.random() < .5
            tot = models.scale(h, 4, B, r)
            msg = data(r, tot[-1])
            tr.append([init(r, 0, a, named)] + [['hash_update', 0, p] for p in models.pieces(tot, msg)]
                      + [['hash_final', 0, SIZE[a]]])
        # 2. every message length up to a block and around the next boundaries, all two-cuts and many three-cuts
        lens = sorted(set(range(0, B + 3)) | set(range(2 * B - 20, 2 * B + 3)))
        for n in lens:
            tr.append([['hash_cuts', 1 + n % 2, a, b'', data(r, n), 5 if vt.THOROUGH else 17]])
        # 3. several contexts interleaved, copies, reuse
        for _ in range(20 if vt.THOROUGH else 5):
            ev, live = [], {}
            for _ in range(r.randrange(12, 30)):
                s = r.randrange(3)
                k = r.random()
                if s not in live:
                    a2 = a if r.random() < .7 else r.choice(IDS)
                    ev.append(init(r, s, a2, r.random() < .5))
                    live[s] = a2
                elif k < .6:
                    ev.append(['hash_update', s, data(r, r.choice((0, 1, 7, 8, B - 1, B, B + 1, r.randrange(2 * B))))])
                elif k < .8:
                    d = r.randrange(3)
                    if d != s:
                        ev.append(['hash_copy', d, s])
                        live[d] = live[s]
                else:
                    ev.append(['hash_final', s, SIZE[live.pop(s)]])
            for s in sorted(live):
                ev.append(['hash_final', s, SIZE[live[s]]])
            tr.append(ev)
        # longer messages (several blocks per call)
        for _ in range(8 if vt.THOROUGH else 2):
            n = r.randrange(3 * B, 9 * B)
            msg = data(r, n)
            tot = sorted([r.randrange(n + 1) for _ in range(3)]) + [n]
            tr.append([init(r, 0, a, r.random() < .5)] + [['hash_update', 0, p] for p in models.pieces(tot, msg)]
                      + [['hash_final', 0, SIZE[a]]])
        # one call of many blocks
        for n in (4097, 65536 + 5) if vt.THOROUGH else (r.choice((4095, 4096, 4097)),):
            tr.append([init(r, 0, a, r.random() < .5), ['hash_update', 0, data(r, n)], ['hash_final', 0, SIZE[a]]])
    # 4. extendable output lengths
    for a in ('shake128', 'shake256'):
        for n in range(0, 201):
            m = data(r, r.choice((0, 3, BLOCK[a] - 1, BLOCK[a], 200)))
            tr.append([init(r, 0, a, n % 2 == 0), ['hash_update', 0, m], ['hash_final', 0, n]])
    # 5. raw Keccak and BLAKE2 parameters
    for bits in range(32, 769, 32):
        for _ in range(6 if vt.THOROUGH else 2):
            rate = (1600 - 2 * bits) // 8
            m = data(r, r.choice((0, 1, rate - 1, rate, rate + 1, 2 * rate - 1, r.randrange(3 * rate))))
            k = r.randrange(len(m) + 1)
            tr.append([['keccak_init', 0, bits], ['hash_update', 0, m[:k]], ['hash_update', 0, m[k:]],
                       ['hash_final', 0, r.choice((bits // 8, 1, 7, 8, 9, 64, 199, 200)), r.choice((0, 1, 6, 31, 4))]])
    for nm, mx in (('blake2b', 64), ('blake2s', 32)):
        for n in range(1, mx + 1):
            for kl in {0, n, mx, r.randrange(mx + 1)}:
                B = 2 * mx
                m = data(r, r.choice((0, 1, B - 1, B, B + 1, 2 * B, 2 * B + 1, r.randrange(3 * B))))
                k = r.choice((0, len(m) // 2, len(m)))
                tr.append([[nm + '_init', 0, n, data(r, kl)], ['hash_update', 0, m[:k]], ['hash_update', 0, m[k:]],
                           ['hash_final', 0, 0]])
    # 6. length counters: 2^32 bits and 2^32 bytes, in large pieces and in a single call
    long = []
    for a in ('md4', 'md5', 'ripemd160', 'sha1', 'sha256', 'sha512', 'whirlpool', 'blake2s256', 'blake2b512', 'sha3_256'):
        if a not in ('blake2s256', 'blake2b512', 'sha3_256') or vt.THOROUGH:
            long.append([['hash_repeat', a, 97, 524288, b'tail-512', 65536 + 3]])
        if a in ('blake2s256', 'sha256', 'md5', 'sha1') or vt.THOROUGH:
            long.append([['hash_repeat', a, 97, 4194304, b'tail-4096', 0]])
    c.run('HashTrace', tr)
    c.run('HashTrace', long, variants=('rel',))
    c.assumptions = ['messages beyond 4 GiB are not explored', 'long-message digests in spec/data come from OpenSSL']
