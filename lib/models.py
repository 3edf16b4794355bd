"""Scenarios generated by TLC from design-level specifications."""
import re
import vt


def buffer_histories(c, b=4, total=9, calls=3, lazy=False):
    x = c.model('BlockBuffer', 'INIT Init\nNEXT Next\nCONSTANTS B = %d MaxTotal = %d MaxCalls = %d Lazy = %s\n'
                'INVARIANTS Conserved BlocksWhole Position\n' % (b, total, calls, 'TRUE' if lazy else 'FALSE'))
    hs = set()
    for m in re.finditer(r'<<"H", <<([\d, ]*)>>>>', x.out):
        hs.add(tuple(int(v) for v in m.group(1).split(',')) if m.group(1) else ())
    if not hs:
        raise vt.CheckError('no histories generated')
    return sorted(hs)


def scale(hist, b, B, r):
    """Map totals of a history over block size b to block size B, keeping block counts and position classes."""
    mid = sorted(r.sample(range(2, B - 1), b - 3)) if b > 3 else []
    pos = [0, 1] + mid + [B - 1]
    return [(t // b) * B + pos[t % b] for t in hist]


def pieces(totals, msg):
    out, p = [], 0
    for t in totals:
        out.append(msg[p:t])
        p = t
    return out
