"""C10: faults of the system's sources of randomness."""
import re
import vt

Q = 'gosprcfy'


def scripts(c, sizes, faults):
    x = c.model('EntropyModel', 'INIT Init\nNEXT Next\nCONSTANTS Sizes = {%s} MaxFaults = %d\n'
                'INVARIANTS Truthful NoLeak OneDescriptor Report\n' % (', '.join(map(str, sizes)), faults))
    out = []
    for m in re.finditer(r'^"S <<(\d+), (\d+), (.*)>>"$', x.out, re.M):
        qs = re.findall(r'<<(.*?)>>', m.group(3).replace('\\', ''))
        out.append((int(m.group(1)), int(m.group(2)), [re.findall(r'"(\w+)"', q) for q in qs]))
    if not out or any(len(o[2]) != 8 for o in out):
        raise vt.CheckError('scripts not understood')
    return sorted(out)


def script(r, qs):
    """Queue texts, with concrete sizes for short transfers and concrete errors."""
    out = []
    for k, q in zip(Q, qs):
        t = []
        for o in q:
            if o == 'short':
                o = 's%d' % r.choice((1, 2, 7, 127, 128, 255, r.randrange(1, 256)))
            elif o == 'e' and k == 'g':
                o = r.choice('ep')
            elif o == 'f' and k == 's':
                o = r.choice('fdbpk')
            t.append(o)
        out.append(','.join(t) or '-')
    return out


def size(r, s):
    return {0: 0, 1: r.choice((1, 2, 32, 64, 127, 128)), 2: r.choice((129, 255, 256)), 3: r.choice((257, 300, 383)),
            4: r.choice((384, 511, 512)), 5: r.choice((513, 600))}[s]


def check(c):
    r = vt.rng('c10')
    sc = scripts(c, (1, 2, 3, 4, 5) if vt.THOROUGH else (1, 2, 3, 4), 4 if vt.THOROUGH else 3)
    vt.log(len(sc), 'fault sequences')
    lim = 60000 if vt.THOROUGH else 6000
    ent = sc if len(sc) <= lim else r.sample(sc, lim)
    tr = []
    for (s, ret, qs) in ent:
        tr.append([['en_run', 'entropy', size(r, s), r.randrange(1, 2**30), 1, 0] + script(r, qs)])
    # the seed is 64 bytes, so only requests of one chunk apply
    one = [x for x in sc if x[0] <= 2]
    for (s, ret, qs) in one if len(one) <= lim else r.sample(one, lim):
        api = r.choice(('bytes', 'bytes', 'word', 'uniform'))
        tr.append([['en_run', api, r.choice((0, 16, 64, 100)), r.randrange(1, 2**30), 2, r.choice((0, 0, 1))] + script(r, qs)])
    # long storms of transient faults
    for _ in range(300 if vt.THOROUGH else 60):
        qs = [[], [], [], [], [], [], [], []]
        storm = lambda ks, n: [r.choice(ks) for _ in range(r.randrange(n))]
        qs[0] = storm(('i', 'a', 'short'), 40) + (['n'] if r.random() < .6 else [])
        qs[1] = storm(('i',), 10) + ['ok'] + storm(('i',), 10)
        qs[3] = storm(('i', 'a'), 20)
        qs[4] = storm(('i', 'a', 'short'), 40)
        tr.append([['en_run', 'entropy', r.choice((0, 1, 255, 256, 257, 700, 2000)), r.randrange(1, 2**30), 1, 0] + script(r, qs)])
    c.run('EntropyTrace', tr)
