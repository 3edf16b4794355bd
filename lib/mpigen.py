"""Operands and register programs for the integer library."""
import vt

LIMBS = (0, 1, 2, 3, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000001, 0xffffffff00000000, 0x7fffffffffffffff,
         0x8000000000000000, 0x8000000000000001, 0xfffffffffffffffe, 0xffffffffffffffff, 0xfffffffeffffffff, 0x5555555555555555)


def num(r, maxlimbs=6, exact=None):
    """A magnitude whose limbs sit on the edges, of both limb sizes."""
    n = exact if exact is not None else r.choice((0, 1, 1, 2, 2, 3, 4, r.randint(0, maxlimbs)))
    n = min(n, maxlimbs) if exact is None else n
    k = r.random()
    if n == 0:
        return r.choice((0, 0, 1, 2, 3))
    if k < .2:
        v = r.getrandbits(64 * n)
    elif k < .6:
        v = 0
        for _ in range(n):
            v = v << 64 | (r.choice(LIMBS) if r.random() < .8 else r.getrandbits(64))
    elif k < .7:
        v = (1 << 64 * n) - 1
    elif k < .85:
        b = 64 * n - r.choice((0, 1, 31, 32, 33, 63, r.randrange(64)))
        v = (1 << b) + r.choice((-2, -1, 0, 1, 2))
    elif k < .95:
        a, b = sorted((r.randint(0, 64 * n), r.randint(0, 64 * n)))
        v = (1 << b) - (1 << a)         # a run of ones
    else:
        v = r.getrandbits(r.randint(1, 64 * n))
    return max(v, 0)


def small(r, bits):
    k = r.random()
    if k < .4:
        v = r.choice(LIMBS)
    elif k < .6:
        v = r.randrange(1, 200)
    else:
        v = r.getrandbits(r.randint(1, 64))
    return v & (1 << bits) - 1


def mag(v):
    return v.to_bytes((v.bit_length() + 7) // 8, 'big')


def hx(v):
    return '%x' % v


class Prog:
    """A program over six registers; keeps what is known of their values so that preconditions hold."""

    def __init__(self, r, w, maxlimbs=6):
        self.r, self.w, self.maxl = r, w, maxlimbs
        self.ev = []
        self.val = [0] * 6      # None: unknown
        self.bits = [0] * 6     # upper bounds
        for i in range(6):
            if r.random() < .8:
                self.set(i)

    def num(self):
        return num(self.r, self.maxl)

    def set(self, i, v=None):
        if v is None:
            v = self.num()
            if self.r.random() < .4:
                v = -v
        self.ev.append(['mz_set', i, mag(abs(v)), int(v < 0)])
        self.val[i], self.bits[i] = v, abs(v).bit_length()

    def reg(self):
        return self.r.randrange(6)

    def need(self, i, ok, make=None):
        """Make register i satisfy ok."""
        if self.val[i] is not None and ok(self.val[i]):
            return
        for _ in range(1000):
            v = make() if make else self.num() * self.r.choice((1, 1, -1))
            if ok(v):
                break
        else:
            raise AssertionError('no operand')
        self.set(i, v)

    def limit(self, i, bits):
        if self.bits[i] > bits:
            self.set(i)

    def out(self, i, bits, val=None):
        self.val[i], self.bits[i] = val, max(bits, 1)

    def add(self, *e):
        self.ev.append(list(e))
