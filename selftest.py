#!/usr/bin/env python3
"""python3 selftest.py [property...]: corrupt one result of recorded traces; the specification has to reject each (run by hand)."""
import collections, importlib, json, os, sys

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
import vt

N = int(os.environ.get('SELFTEST_N', '300'))
real = vt.validate


def corrupt(r, res):
    """Another result of the same kind, differing in one place."""
    i = r.randrange(len(res))
    t = res[i]
    if not t or t == '-':
        t = '00'
    else:
        k = r.randrange(len(t))
        x = t[k]
        y = r.choice([z for z in ('0123456789' if x.isdigit() else '0123456789abcdef') if z != x])
        t = t[:k] + y + t[k + 1:]
    return res[:i] + [t] + res[i + 1:]


def tried(module, evs, kw, base=0):
    """Rejections; position -1 for a trace on which TLC stops because the record is no longer a possible record."""
    try:
        return [(base + x[0], x[1]) for x in real(module, evs, **kw).rejects]
    except vt.CheckError:
        if len(evs) == 1:
            return [(base, -1)]
        h = len(evs) // 2
        return tried(module, evs[:h], kw, base) + tried(module, evs[h:], kw, base + h)


def main():
    total = collections.Counter()
    for pid in sys.argv[1:] or ['C%02d' % i for i in range(1, 32)]:
        got = collections.Counter()
        missed = collections.Counter()

        def validate(module, evs, **kw):
            val = real(module, evs, **kw)
            if val.rejects:
                return val  # (deliberate leaks of C27)
            r = vt.rng('selftest', pid)
            pick = [e for e in r.sample(evs, min(N, len(evs))) if any(x['r'] for x in e)]
            bad, where = [], []
            for e in pick:
                e = json.loads(json.dumps(e))
                # (the last event of a trace is one whose result is looked at)
                k = r.choice([i for i, x in enumerate(e) if x['r']])
                e[k]['r'] = corrupt(r, e[k]['r'])
                bad.append(e)
                where.append(k)
            rej = {x[0]: x[1] for x in tried(module, bad, kw)}
            for i, e in enumerate(bad):
                got['corrupted'] += 1
                if i in rej and rej[i] < 0:
                    got['unreadable'] += 1
                elif i in rej:
                    got['rejected'] += 1
                    got['there'] += rej[i] == where[i]
                else:
                    missed[e[where[i]]['op']] += 1
            return val

        vt.validate = validate
        c = vt.Check(pid)
        importlib.import_module(pid.lower()).check(c)
        vt.validate = real
        if c.violations:
            raise vt.CheckError('the unchanged traces are rejected')
        print(pid, dict(got), 'accepted:', dict(missed), flush=True)
        total.update(got)
    print(dict(total))


main()
