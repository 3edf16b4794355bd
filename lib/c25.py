"""C25: exact big-integer arithmetic, with aliasing."""
import vt
from mpigen import Prog, num, small, mag, hx, LIMBS


def step(p, r, cap):
    """Append one operation to the program."""
    z, x, y, q = (p.reg() for _ in range(4))
    if r.random() < .3:
        y = x
    if r.random() < .3:
        z = r.choice((x, y))
    B = p.bits
    k = r.choices(('zxy', 'zxu', 'zxs', 'zx', 'zxb', 'zb', 'mulshift', 'zzxy', 'pxy', 'pxu', 'pxs', 'pxb', 'px', 'congr', 'zu',
                   'text', 'bytes', 'mem', 'divedge'), (20, 12, 12, 6, 8, 8, 3, 12, 6, 6, 5, 6, 8, 5, 3, 4, 4, 2, 10))[0]
    w = p.w
    u = small(r, w)
    s = r.choice((1, -1)) * min(small(r, w - 1), (1 << w - 1) - 1)
    if r.random() < .05:
        s = -(1 << w - 1)
    bit = lambda i: r.choice((0, 1, 31, 32, 33, 63, 64, 65, 127, 128, r.randint(0, B[i] + 70), B[i], max(B[i] - 1, 0), B[i] + 1))
    for i in (x, y):
        p.limit(i, cap)
    if k == 'zxy':
        f = r.choice('add sub mul addmul submul quo rem div mod divexact divround and ior xor'.split())
        if f in ('quo', 'rem', 'div', 'mod', 'divround', 'divexact'):
            p.need(y, lambda v: v != 0)
        if f == 'divexact':
            if x == y:
                pass
            else:
                d = p.val[y]
                p.set(x, d * p.num() * r.choice((1, -1)))
        if f in ('addmul', 'submul'):
            p.limit(z, 2 * cap)
        p.add('mz_zxy', f, z, x, y)
        n = {'mul': B[x] + B[y], 'addmul': max(B[z], B[x] + B[y]) + 1, 'submul': max(B[z], B[x] + B[y]) + 1}.get(f, max(B[x], B[y]) + 1)
        p.out(z, n)
    elif k == 'zxu':
        f = r.choice('add_ui sub_ui mul_ui addmul_ui submul_ui divexact_ui divround_ui ior_ui xor_ui ui_sub quo_ui div_ui'.split())
        if 'quo' in f or 'div' in f:
            u = u or 1
        if f == 'divexact_ui':
            p.set(x, u * p.num() * r.choice((1, -1)))
        if 'mul' in f:
            p.limit(z, 2 * cap)
        p.add('mz_zxu', f, z, x, hx(u))
        p.out(z, max(B[z] if 'mul' in f else 0, B[x] + (64 if 'mul' in f else 0), 64) + 1)
    elif k == 'zxs':
        f = r.choice('add_si sub_si mul_si addmul_si submul_si divexact_si divround_si and_si ior_si xor_si si_sub quo_si div_si'.split())
        if 'quo' in f or 'div' in f:
            s = s or -1
        if f == 'divexact_si':
            p.set(x, s * p.num() * r.choice((1, -1)))
        if 'mul' in f:
            p.limit(z, 2 * cap)
        p.add('mz_zxs', f, z, x, hx(s))
        p.out(z, max(B[z] if 'mul' in f else 0, B[x] + (64 if 'mul' in f else 0), 64) + 1)
    elif k == 'zx':
        f = r.choice('set sqr com abs neg roset init_set swap inits inits2 roinit modify'.split())
        p.add('mz_zx', f, z, x)
        if f == 'swap':
            p.val[z], p.val[x], B[z], B[x] = p.val[x], p.val[z], B[x], B[z]
        else:
            v = p.val[x]
            nv = None if v is None else {'set': v, 'sqr': v * v, 'com': ~v, 'abs': abs(v), 'neg': -v, }.get(f, v)
            p.out(z, 2 * B[x] + 1 if f == 'sqr' else B[x] + 1, nv)
    elif k == 'zxb':
        f = r.choice('mul_2exp quo_2exp rem_2exp div_2exp mod_2exp'.split())
        b = bit(x)
        p.add('mz_zxb', f, z, x, b)
        p.out(z, B[x] + b if f in ('mul_2exp', 'mod_2exp') else B[x] + 1)
    elif k == 'zb':
        f = r.choice('setbit clrbit combit'.split())
        b = bit(z)
        p.limit(z, cap)
        if r.random() < .5:             # negative numbers with a run of zeros or ones below the bit
            b = r.choice((0, 1, 31, 32, 63, 64, 65, 128, r.randrange(200)))
            p.set(z, -((num(r, 2) << r.choice((b, max(b - 1, 0), b + 1, r.randrange(200)))) + r.choice((0, 0, 1, -1))))
        p.add('mz_zb', f, z, b)
        p.out(z, max(B[z], b + 1) + 1)
    elif k == 'mulshift':
        b = r.choice((0, 1, 63, 64, 65, B[x], B[x] + B[y], B[x] + B[y] + 1, r.randint(0, 300)))
        p.add('mz_mulshift', z, x, y, b)
        p.out(z, B[x] + B[y] + 1)
    elif k == 'zzxy':
        f = r.choice(('quorem', 'divmod'))
        q = r.choice([i for i in range(6) if i != z] if r.random() < .5 or x == z else [x if x != z else y])
        if q == z:
            q = (z + 1) % 6
        p.need(y, lambda v: v != 0)
        p.add('mz_zzxy', f, z, q, x, y)
        n = max(B[x], B[y]) + 1
        p.out(z, n)
        p.out(q, n)
    elif k == 'divedge':                # dividends built from a quotient and a remainder on the edges
        d = num(r, max(2, p.maxl // 2)) or 1
        qq = num(r, max(2, p.maxl // 2))
        rr = r.choice((0, 1, d - 1, d // 2, d // 2 + 1, d // 2 - 1, r.randrange(d)))
        n = max(0, qq * d + max(0, min(rr, d - 1)))
        x, y = r.sample(range(6), 2)
        p.set(x, n * r.choice((1, -1)))
        p.set(y, d * r.choice((1, -1)))
        z = r.choice((x, y, p.reg()))
        q = r.choice([i for i in range(6) if i != z])
        if r.random() < .6:
            f = r.choice(('quorem', 'divmod'))
            p.add('mz_zzxy', f, z, q, x, y)
            b = max(B[x], B[y]) + 1
            p.out(z, b)
            p.out(q, b)
        else:
            p.add('mz_zxy', r.choice(('quo', 'rem', 'div', 'mod', 'divround')), z, x, y)
            p.out(z, max(B[x], B[y]) + 1)
    elif k == 'pxy':
        if r.random() < .4 and p.val[x] is not None and x != y:
            p.set(y, p.val[x] + r.choice((0, 1, -1, 1 << r.randrange(200))))
        if r.random() < .4 and x != y:
            p.need(y, lambda v: v != 0)
            p.set(x, p.val[y] * p.num() + r.choice((0, 0, 1)))
        p.add('mz_pxy', r.choice('cmp cmpabs divisible_p hamdist'.split()), x, y)
    elif k == 'pxu':
        f = r.choice('cmp_ui cmpabs_ui rem_ui mod_ui divisible_ui_p and_ui'.split())
        if f in ('rem_ui', 'mod_ui'):
            u = u or 1
        if r.random() < .4:
            p.set(x, u * r.choice((1, -1, 0, num(r, 2))) + r.choice((0, 0, 1, -1)))
        p.add('mz_pxu', f, x, hx(u))
    elif k == 'pxs':
        f = r.choice('cmp_si cmpabs_si rem_si mod_si'.split())
        if f in ('rem_si', 'mod_si'):
            s = s or -1
        if r.random() < .4:
            p.set(x, s * r.choice((1, -1, 0, num(r, 2))) + r.choice((0, 0, 1, -1)))
        p.add('mz_pxs', f, x, hx(s))
    elif k == 'pxb':
        f = r.choice('tstbit scan0 scan1 divisible_2exp_p getlimbn sizeinbase tstbit scan0 scan1'.split())
        b = r.randint(0, 12) if f == 'getlimbn' else r.choice((2, 3, 8, 10, 16, 32, 36, 58, 62, 64, 256)) if f == 'sizeinbase' else bit(x)
        if f == 'sizeinbase' and r.random() < .6:
            p.set(x, b ** r.randint(0, 60) + r.choice((0, -1, 1)))
        p.add('mz_pxb', f, x, b)
    elif k == 'px':
        f = r.choice('sgn odd_p even_p popcount ctz bitlen bytelen get_compact get_ui get_si fits_ui_p fits_si_p size'.split())
        if f == 'fits_ui_p':
            p.need(x, lambda v: v >= 0, lambda: r.choice((num(r, 2), 1 << 32, (1 << 32) - 1, (1 << 64) - 1, 1 << 64)))
        if f in ('fits_si_p', 'get_si') and r.random() < .6:
            p.set(x, r.choice((1, -1)) * ((1 << r.choice((31, 32, 63, 64))) + r.choice((0, 1, -1))))
        if f == 'get_compact':
            p.need(x, lambda v: v.bit_length() < 2000)
        p.add('mz_px', f, x)
    elif k == 'congr':
        f = r.choice('congruent_p congruent_ui_p congruent_2exp_p'.split())
        dv = 0 if r.random() < .1 else num(r, 2)
        b = r.choice((0, 1, 31, 32, 33, 63, 64, 65, 128, r.randrange(300)))
        m = dv if f == 'congruent_p' else u if f == 'congruent_ui_p' else 1 << b
        if r.random() < .7:
            v = p.num() * r.choice((1, -1))
            p.set(x, v)
            if x != y:
                p.set(y, v + m * (num(r, 2) * r.choice((1, -1, 0))) + r.choice((0, 0, 0, 1, m >> 1)))
        d = r.choice([i for i in range(6) if i not in (x, y)])
        if f == 'congruent_p':
            p.set(d, dv * r.choice((1, -1)))
            p.add('mz_congr', f, x, y, d)
        else:
            p.add('mz_congr', f, x, y, hx(u) if f == 'congruent_ui_p' else b)
    elif k == 'zu':
        f = r.choice('set_ui set_si init_set_ui init_set_si set_compact init_set_compact'.split())
        if 'compact' in f:
            c = r.choice((0, 1, 2, 3, 4, 5, 8, 29, 32, r.randrange(60))) << 24 | r.choice((0, 1, 0x7f, 0x80, 0x7fffff, 0x800000, 0x800001, 0xffff, r.getrandbits(24)))
            p.add('mz_zu', f, z, hx(c))
            p.out(z, 600)
        else:
            p.add('mz_zu', f, z, hx(s if 'si' in f else u))
            p.out(z, 64, s if 'si' in f else u)
    elif k == 'text':
        base = r.choice((2, 3, 7, 8, 10, 10, 16, 32, 36, 37, 58, 61, 62, r.randint(2, 62)))
        if r.random() < .5:
            p.limit(x, 1500)
            p.add(r.choice(('mz_getstr', 'mz_getstr', 'mz_print')), x, base)
        else:
            al = '0123456789abcdefghijklmnopqrstuvwxyz'
            al2 = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
            b0 = base
            n = r.choice((0, 1, 2, 9, 10, 19, 20, 21, r.randint(0, 90)))
            a = al if base <= 36 else al2
            t = ''.join(r.choice(a[:base]) for _ in range(n))
            if base <= 36 and r.random() < .5:
                t = ''.join(r.choice((ch, ch.upper())) for ch in t)
            if r.random() < .2:
                t = '0' * r.randint(1, 30) + t
            if r.random() < .15:
                i = r.randint(0, len(t))
                t = t[:i] + r.choice([a[base] if base < len(a) else '!', '/', ':', '@', '[', '`', '{', '-', '+', ' ', '\t', '\n', '.']) + t[i:]
            if r.random() < .2:
                base = 0
                t = r.choice(('0x', '0X', '0b', '0B', '0o', '0O', '0', '')) + ''.join(r.choice('01' if r.random() < .6 else '0123456789abcdef') for _ in range(n))
            t = r.choice(('', '', '', '-', '+', ' ', ' -', '- ')) + t + r.choice(('', '', '', ' ', '\n'))
            p.add(r.choice(('mz_setstr', 'mz_setstr', 'mz_initstr')), z, t.encode(), base)
            p.out(z, 6 * len(t) + 8)
    elif k == 'bytes':
        if r.random() < .5:
            b = mag(num(r)) + r.choice((b'', b'\0', b'\0\0\0'))
            b = r.choice((b'', b'\0', b'\0' * 8, b'\0' * 9)) + b
            p.add('mz_import', z, b, r.choice((1, -1)))
            p.out(z, 8 * len(b))
        else:
            p.limit(x, cap)
            n = (B[x] + 7) // 8 + r.choice((0, 0, 1, 3, 4, 7, 8, 9, 20))
            p.add('mz_export', x, n, r.choice((1, -1)))
    elif k == 'mem':
        if r.random() < .3:
            p.add('mz_cleanse', z, r.choice((0, 1, 64, 65, 1000)))
            p.out(z, 0, 0)
        else:
            n = r.choice((0, 1, 2, 3, 10, B[x] // 64, B[x] // 64 + 1, B[x] // 32))
            if r.random() < .5:
                p.add('mz_realloc', x, n)
            else:
                p.add('mz_realloc2', x, r.choice((0, 1, B[x], B[x] + 1, max(B[x] - 1, 0), 64, 65)))
            p.out(x, B[x])


def vec(r, n=None, lo=0):
    n = n if n is not None else r.choice((1, 1, 2, 2, 3, 4, 5, 8, 9, r.randint(1, 20)))
    v = num(r, exact=n) & (1 << 64 * n) - 1
    if r.random() < .1:
        v = 0
    return max(v, lo).to_bytes(8 * n, 'big')


def limb_ops(r, w, count):
    """Calls on limb vectors; every trace is one call."""
    tr = []
    add = lambda *e: tr.append([list(e)])
    for _ in range(count):
        k = r.choices(('vec', 'lim', 'getbits', 'acc', 'mul', 'mulshift', 'div', 'weak', 'barrett', 'mont', 'cmp', 'tab', 'imp', 'exp', 'str', 'gcdext', 'rand'),
                      (14, 20, 3, 5, 8, 4, 22, 4, 8, 10, 5, 2, 4, 4, 8, 4, 2))[0]
        if k == 'vec':
            f = r.choice('add add_n sec_add sub sub_n sec_sub and_n ior_n xor_n andn_n iorn_n nand_n nior_n xnor_n cnd_add_n cnd_sub_n cnd_select cnd_swap'.split())
            x = vec(r)
            y = vec(r, len(x) // 8)
            if r.random() < .3:
                y = bytes(a ^ 255 for a in x)       # carries over the whole length
                if r.random() < .5:
                    y = ((int.from_bytes(y, 'big') + 1) % (1 << 8 * len(y))).to_bytes(len(y), 'big')
            if r.random() < .1:
                y = x
            if f in ('add', 'sub', 'sec_add', 'sec_sub') and r.random() < .5:
                y = y[len(y) - 8 * r.randint(0, len(y) // 8):]
            al = r.choice((0, 1, 2)) if len(x) == len(y) and f != 'cnd_swap' else r.choice((0, 1))
            add('mn_vec', f, x, y, al, r.randrange(2))
        elif k == 'lim':
            f = r.choice('add_1 sec_add_1 sub_1 sec_sub_1 mul_1 divmod_1 mod_1 cnd_zero cnd_neg neg com lshift rshift mask setbit clrbit combit scan0 scan1 getbit sizeinbase div_1 divexact_1 set_1 zero cleanse tstbit ctz copyi copyd'.split())
            x = vec(r)
            nb = 8 * len(x)
            u = small(r, w)
            if f in ('add_1', 'sub_1', 'sec_add_1', 'sec_sub_1') and r.random() < .4:
                x = (b'\xff' if 'add' in f else b'\0') * len(x)
            if f in ('copyi', 'copyd'):
                u = 8 * r.randint(0, len(x) // 8)
            if f == 'tstbit':
                u = r.choice((0, nb - 1, r.randrange(nb)))
            if f == 'ctz':
                x = (num(r, exact=len(x) // 8) << r.choice((0, 1, 31, 32, 63, 64, nb - 1, nb, r.randrange(nb))) & (1 << nb) - 1).to_bytes(len(x), 'big')
            if f == 'divexact_1':
                u = u or 3
                x = ((num(r, exact=len(x) // 8) & (1 << nb) - 1) // u * u).to_bytes(len(x), 'big')
            if f in ('divmod_1', 'mod_1', 'div_1'):
                u = u or 3
                if r.random() < .5:
                    q = num(r, exact=len(x) // 8) // u
                    x = min(q * u + r.choice((0, u - 1)), (1 << nb) - 1).to_bytes(len(x), 'big')
            if f in ('cnd_zero', 'cnd_neg'):
                u = r.randrange(2)
            if f in ('lshift', 'rshift'):
                u = r.choice((1, w - 1, r.randint(1, w - 1)))
            if f in ('setbit', 'clrbit', 'combit'):
                u = r.choice((0, nb - 1, r.randrange(nb)))
            if f in ('mask', 'scan0', 'scan1', 'getbit'):
                u = r.choice((0, 1, nb - 1, nb, nb + 1, r.randrange(nb), 32, 64))
            if f == 'sizeinbase':
                u = r.choice((2, 3, 8, 10, 16, 32, 36, 58, 62, 64, 256))
                x = (u ** r.randint(0, 50) - r.randrange(2)).to_bytes(64, 'big')
                x = x.lstrip(b'\0')
                x = bytes(-len(x) % 8) + x
                if w == 64 and len(x) == 0:
                    continue
                if w == 32 and len(x) == 0:
                    continue
            add('mn_lim', f, x, hx(u), r.randrange(2))
        elif k == 'getbits':
            x = vec(r)
            add('mn_getbits', x, r.choice((0, 31, 32, 63, 64, 8 * len(x) - 1, r.randrange(8 * len(x) + 10))), r.choice((1, 5, w - 1, r.randint(1, w - 1))))
        elif k == 'acc':
            x = vec(r)
            z = vec(r, len(x) // 8)
            if r.random() < .5:
                z, x = b'\xff' * len(x), b'\xff' * len(x)
            add('mn_acc', r.choice(('addmul_1', 'submul_1')), z, x, hx(small(r, w)))
        elif k == 'mul':
            f = r.choice(('mul', 'mul_n', 'sqr'))
            x = vec(r)
            y = vec(r, r.randint(1, len(x) // 8) if f == 'mul' else len(x) // 8)
            add('mn_mul', f, x, y)
        elif k == 'mulshift':
            x = vec(r)
            n = len(x) // 8
            y = vec(r, n)
            add('mn_mulshift', x, y, r.choice((64 * n, 64 * n + 1, 128 * n - 1, r.randint(64 * n, 128 * n - 1))))
        elif k == 'div':
            f = r.choice(('divmod', 'divmod', 'div', 'mod', 'divexact'))
            dn = r.choice((1, 1, 2, 2, 3, 4, 5, r.randint(1, 9)))
            # divisors: top limb from 1 to all ones
            top = r.choice((1, 2, 3, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 1, r.getrandbits(64) | 1))
            if w == 32:
                top |= 1 << 32 if top < 1 << 32 else 0
            d = top << 64 * (dn - 1) | (num(r, exact=dn - 1) & (1 << 64 * (dn - 1)) - 1 if dn > 1 else 0)
            qn = r.choice((1, 1, 2, 3, 4, 5, r.randint(1, 9)))
            q = num(r, exact=qn) & (1 << 64 * qn) - 1
            if r.random() < .3:
                q = (1 << 64 * qn) - r.choice((1, 2, 3))
            rm = r.choice((0, 1, d - 1, d - 2, d >> 1, r.randrange(d)))
            n = q * d if f == 'divexact' else q * d + max(rm, 0) % d
            if f == 'divmod' and r.random() < .3:
                # dividend whose top limbs equal the divisor's: the estimate saturates
                n = (d << 64 * qn) - r.choice((1, 2, 1 << 64 * (qn - 1), r.randrange(1, d + 1)))
                n = max(n, 0)
            nn = max(dn, (n.bit_length() + 63) // 64) + (1 if r.random() < .2 else 0)
            add('mn_div', f, n.to_bytes(8 * nn, 'big'), d.to_bytes(8 * dn, 'big'), r.choice((0, 0, 1, 2, 3, 4)))
        elif k == 'weak':
            n = r.randint(1, 6)
            m = (num(r, exact=n) & (1 << 64 * n) - 1) | 1 << 64 * n - 1
            hi = r.randrange(2)
            x = r.choice((m, m - 1, m + 1, r.randrange(m), (1 << 64 * n) - 1, 0))
            if hi:
                x = min(x, 2 * m - 1 - (1 << 64 * n)) if 2 * m - 1 > 1 << 64 * n else 0
                if 2 * m - 1 <= 1 << 64 * n:
                    hi = 0
            x = max(0, min(x, (1 << 64 * n) - 1))
            add('mn_reduceweak', x.to_bytes(8 * n, 'big'), m.to_bytes(8 * n, 'big'), hx(hi))
        elif k == 'barrett':
            n = r.choice((1, 1, 2, 3, 4, 5, 8))
            sh = 2 * n + r.choice((0, 0, 1, 2))
            m = num(r, exact=n) & (1 << 64 * n) - 1
            m |= r.choice((1 << 64 * n - 1, 1 << 64 * n - 31, 1 << 64 * n - 2))
            if m == 1 << 64 * n - 1 and False:
                continue
            t = r.random()
            if t < .3:
                x = r.randrange((1 << 64 * sh))
            elif t < .7:
                q = num(r, exact=sh - n) & (1 << 64 * (sh - n)) - 1
                x = q * m + r.choice((0, 1, m - 1, r.randrange(m)))
            else:
                x = (1 << 64 * sh) - r.choice((1, 2, m, m + 1, m - 1))
            x = min(x, (1 << 64 * sh) - 1)
            add('mn_barrett', x.to_bytes(8 * sh, 'big'), m.to_bytes(8 * n, 'big'))
        elif k == 'mont':
            n = r.choice((1, 1, 2, 3, 4, 5, 8))
            m = num(r, exact=n) & (1 << 64 * n) - 1 | 1
            if r.random() < .5:
                m |= 1 << 64 * n - 1
            m |= 1 << 64 * n - 20
            pick = lambda: r.choice((0, 1, m - 1, m - 2, r.randrange(m), (1 << 64 * n) % m, num(r, exact=n) % m))
            add('mn_mont', pick().to_bytes(8 * n, 'big'), pick().to_bytes(8 * n, 'big'), m.to_bytes(8 * n, 'big'))
        elif k == 'cmp':
            x = vec(r)
            y = vec(r, len(x) // 8)
            if r.random() < .6:
                y = bytearray(x)
                for _ in range(r.choice((0, 1, 1, 2))):
                    y[r.choice((0, len(x) - 1, r.randrange(len(x))))] ^= r.choice((1, 128, r.randrange(256)))
                y = bytes(y)
            add('mn_cmp', x, y)
        elif k == 'tab':
            n, cnt = r.randint(1, 4), r.randint(1, 9)
            add('mn_tab', vec(r, n * cnt), 8 * n, r.randrange(cnt))
        elif k == 'str':
            base = r.choice((2, 3, 4, 7, 8, 10, 16, 32, 36, 37, 61, 62, r.randint(2, 62)))
            if r.random() < .5:
                x = vec(r)
                if r.random() < .4:     # digits on the edge of a power
                    x = min(base ** r.randint(0, 60) - r.randrange(2), (1 << 8 * len(x)) - 1).to_bytes(len(x), 'big')
                add('mn_getstr', x, base)
            else:
                n = r.randint(1, 5)
                v = r.choice(((1 << 64 * n) - 1, 1 << 64 * n, (1 << 64 * n) + 1, num(r, exact=n), r.getrandbits(64 * n), 0, (1 << 64 * n) * base - 1))
                a = '0123456789abcdefghijklmnopqrstuvwxyz' if base <= 36 else '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
                t = ''
                while v:
                    t = a[v % base] + t
                    v //= base
                t = '0' * r.choice((0, 0, 1, 5, 70)) + t
                if r.random() < .3:
                    i = r.randint(0, len(t))
                    t = t[:i] + r.choice((' ', '\n', '  ', '-', '+', '!', '\x80', '\xff', a[base] if base < len(a) else '_')) + t[i:]
                if base <= 36 and r.random() < .3:
                    t = t.encode('latin1').upper().decode('latin1')
                add('mn_setstr', t.encode('latin1'), 8 * n, base if r.random() < .95 else r.choice((0, 1, 63, -2)))
        elif k == 'gcdext':
            g = num(r, 2) or 1
            y = g * (num(r, r.randint(1, 4)) or 1)
            x = g * num(r, r.randint(1, 5))
            t = r.random()
            if t < .1:
                x = y
            elif t < .2:
                x = y * (num(r, 2) or 1)
            yn = (y.bit_length() + 63) // 64
            # (the top limb must not be zero for either width)
            y |= 1 << 64 * yn - r.choice((1, 30))
            if t >= .8:
                x = y * num(r, 2)
            xn = max(yn, (x.bit_length() + 63) // 64) + r.randrange(2)
            add('mn_gcdext', x.to_bytes(8 * xn, 'big'), y.to_bytes(8 * yn, 'big'))
        elif k == 'rand':
            x = vec(r)
            if r.random() < .3:
                add('mn_random', x, r.randrange(256))
            else:
                x = r.choice((x, bytes(8) + x, bytes(len(x) - 1) + b'\1', (1 << 8 * len(x) - r.choice((1, 32, 33))).to_bytes(len(x), 'big')))
                add('mn_randomm', x, r.randrange(256))
        elif k == 'imp':
            b = bytes(r.choice((0, 255, r.randrange(256))) for _ in range(r.randint(0, 40)))
            add('mn_import', b, 8 * r.randint(1, 5), r.choice((1, -1)))
        else:
            x = vec(r)
            add('mn_export', x, r.randint(0, len(x) + 9), r.choice((1, -1)))
    return tr


def programs(r, w, count, steps, maxl):
    out = []
    for _ in range(count):
        p = Prog(r, w, maxl)
        for _ in range(steps):
            step(p, r, 64 * maxl + 300)
        out.append(p.ev)
    return out


def check(c):
    r = vt.rng('c25')
    k = 8 if vt.THOROUGH else 1
    ex = vt.build_all(['w64', 'w32', 'l32', 'rel'])
    # operands below 2^32 immediate: every limb size must behave alike
    tr = programs(r, 32, 900 * k, 24, 5) + programs(r, 32, 80 * k, 12, 40) + programs(r, 32, 15 * k, 6, 300)
    tr += limb_ops(r, 32, 14000 * k)
    c.run('MpiTrace', tr, exes={v: ex[v] for v in ('w64', 'l32', 'rel')})
    # full-width immediates
    tr = programs(r, 64, 900 * k, 24, 5) + limb_ops(r, 64, 14000 * k)
    c.run('MpiTrace', tr, exes={v: ex[v] for v in ('w64', 'w32', 'rel')})
