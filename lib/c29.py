"""C29: the construction of the global generator, and what its state reveals."""
import re
import vt
import c09

PRE = 'INIT Init\nNEXT Next\nCONSTANTS MaxSteps = %d PoolSize = %d Erase = %s Rekey = %s\nINVARIANTS Forward %s\n'
CUTS = (0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 200, 512, 513, 1500, 4096)


def histories(c, steps, pool):
    x = c.model('GeneratorModel', PRE % (steps, pool, 'TRUE', 'TRUE', 'Report'))
    out = sorted(re.findall(r'"(\w)"', m.replace('\\', '')) for m in re.findall(r'^"H (.*)"$', x.out, re.M))
    if not out:
        raise vt.CheckError('no histories generated')
    return out


def call(r, k, a):
    if k == 'b':
        return ['gn_bytes', a, r.choice(CUTS)]
    if r.random() < .3:
        return ['gn_uniform', a, r.choice((1, 3, 50)), r.choice(c09.MAXES).to_bytes(4, 'big')]
    return ['gn_words', a, r.choice((1, 2, 7, 40, 119, 120, 121, 240, 250))]


def check(c):
    r = vt.rng('c29')
    # without erasing words or without changing the key, earlier output can be recovered
    c.model('GeneratorModel', PRE % (4, 2, 'FALSE', 'TRUE', ''), expect='Forward')
    c.model('GeneratorModel', PRE % (4, 2, 'TRUE', 'FALSE', ''), expect='Forward')
    hs = histories(c, 7 if vt.THOROUGH else 6, 3)
    tr = []
    for i, h in enumerate(r.sample(hs, min(len(hs), 1200 if vt.THOROUGH else 160))):
        ev = [['rg_start', r.randrange(1, 2**30), i % 4, 0]]
        a = 0
        for k in h:
            if k == 'r':                # a new process is seeded again
                ev.append([r.choice(('rg_fork', 'rg_fork', 'rg_thread')), a, a + 1])
                a += 1
            else:
                ev.append(call(r, k, a))
        ev += [['gn_bytes', a, 40], ['gn_words', a, 5]]
        tr.append(ev)
    # schedules over processes and threads
    sc = c09.schedules(c, 5, 4)
    for i, h in enumerate(r.sample(sc, min(len(sc), 600 if vt.THOROUGH else 80))):
        ev = [['rg_start', r.randrange(1, 2**30), i % 4, 0]]
        for (k, a, b) in h:
            ev.append(['rg_fork', a, b] if k == 'f' else ['rg_thread', a, b] if k == 't' else call(r, k, a))
        tr.append(ev)
    # every position of the pool, by words and by bounded integers
    for hw in range(4):
        tr.append([['rg_start', r.randrange(1, 2**30), hw, 0]] + [['gn_words', 0, 1] for _ in range(125)])
    for m in c09.MAXES:
        tr.append([['rg_start', r.randrange(1, 2**30), r.randrange(4), 0], ['gn_uniform', 0, 130, m.to_bytes(4, 'big')], ['gn_words', 0, 3],
                   ['gn_bytes', 0, 33]])
    # large requests and long runs
    for n in (65535, 65536, 100000) if vt.THOROUGH else (65536,):
        tr.append([['rg_start', r.randrange(1, 2**30), 3, 0], ['gn_bytes', 0, n], ['gn_bytes', 0, 32]])
    for _ in range(20 if vt.THOROUGH else 4):
        ev = [['rg_start', r.randrange(1, 2**30), r.randrange(4), 0]]
        for _ in range(260):
            ev.append(['gn_bytes', 0, r.choice((0, 1, 16, 32))])
        tr.append(ev)
    c.run('GeneratorTrace', tr)
