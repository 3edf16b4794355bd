"""C11: base 16, 32, 58 and 64 codecs."""
import vt
from c01 import data

A = {'16': '0123456789abcdef', '32': 'abcdefghijklmnopqrstuvwxyz234567', '32hex': '0123456789abcdefghijklmnopqrstuv',
     '58': '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz',
     '64': 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'}
A['16le'] = A['16']
A['64url'] = A['64'][:62] + '-_'
MODES = [('16', 0), ('16le', 0), ('32', 0), ('32', 1), ('32hex', 0), ('32hex', 1), ('58', 0), ('64', 1), ('64url', 0)]
QUANT = {'16': 2, '16le': 2, '32': 8, '32hex': 8, '58': 4, '64': 4, '64url': 4}


def text(r, v, n):
    """n symbols; the trailing ones such that the unused bits are often zero"""
    s = [r.choice(A[v]) for _ in range(n)]
    if n and r.random() < .7:
        s[-1] = A[v][0] if r.random() < .5 else A[v][r.randrange(len(A[v])) & ~15 & (len(A[v]) - 1 if v != '58' else 63)]
    s = ''.join(s)
    if v in ('16', '16le', '32', '32hex') and r.random() < .3:
        s = ''.join(r.choice((x.upper(), x)) for x in s)
    return s.encode()


def padded(v, pad, s):
    return s + b'=' * (-len(s) % QUANT[v]) if pad else s


def check(c):
    r = vt.rng('c11')
    tr = []
    k = 8 if vt.THOROUGH else 2
    for v, pad in MODES:
        top = 200 if vt.THOROUGH else 70
        for n in list(range(0, 24)) * 4 * k + list(range(24, top)) + ([] if v == '58' else [255, 256, 257, 600]):
            b = data(r, n)
            if v == '58' and r.random() < .5:
                z = r.randrange(n + 1)
                b = bytes(z) + b[z:]
            tr.append([['ec_enc', v, pad, b]])
        # every single byte and every value at the end of a group
        for x in range(256):
            tr.append([['ec_enc', v, pad, data(r, r.randrange(QUANT[v])) + bytes([x])]])
        # every character code at every position of texts of every length, with and without padding
        for n in range(1, 10 if v != '58' else 7):
            for _ in range(2 * k if n < 6 else k):
                s = padded(v, pad, text(r, v, n))
                tr += [[['ec_scan', v, pad, s, p]] for p in range(len(s))]
        # all shapes of padding
        for n in range(0, 18):
            for e in range(0, 10):
                for _ in range(k):
                    tr.append([['ec_dec', v, pad, text(r, v, n) + b'=' * e]])
        for _ in range(1200 * k):
            s = bytearray(padded(v, pad, text(r, v, r.choice((r.randrange(30), r.randrange(120))))))
            for _ in range(r.choice((0, 0, 0, 1, 2))):
                m = r.randrange(4)
                p = r.randrange(len(s) + 1)
                if m == 0:
                    s.insert(p, r.choice(b'=' + A[v].encode() + bytes(range(256))))
                elif m == 1 and s:
                    del s[p - 1]
                elif s:
                    s[p - 1] = r.choice((r.randrange(256), ord('='), ord(r.choice(A[v])), s[p - 1] ^ 0x80, s[p - 1] ^ 0x20))
            tr.append([['ec_dec', v, pad, bytes(s)]])
        if v == '58':
            for _ in range(400 * k):
                z, n = r.randrange(0, 12), r.choice((0, 1, 2, r.randrange(40), r.randrange(200)))
                s = b'1' * z + text(r, v, n)
                tr.append([['ec_dec', v, pad, r.choice((s, s, b'z' * n, b'1' * z + b'2' + b'1' * n))]])
    r.shuffle(tr)
    c.run('EncodingTrace', tr)
