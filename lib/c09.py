"""C09: the global generator over processes, threads and calls."""
import re
import vt


def schedules(c, steps, actors):
    x = c.model('RngModel', 'INIT Init\nNEXT Next\nCONSTANTS MaxSteps = %d MaxActors = %d\nINVARIANTS Unshared Separate Report\n'
                % (steps, actors))
    out = []
    for m in re.finditer(r'^"H (.*)"$', x.out, re.M):
        out.append([(a, int(b), int(p)) for a, b, p in re.findall(r'<<"(\w)", (\d+), (\d+)>>', m.group(1).replace('\\', ''))])
    if not out:
        raise vt.CheckError('no schedules generated')
    return sorted(out)


SIZES = (16, 17, 32, 63, 64, 65, 100, 128, 255, 256, 257, 512, 1000, 1024, 4097)


def draw(r, c, a):
    if c == 'b':
        if r.random() < .15:
            return ['rg_entropy', a, r.choice(SIZES)]
        return ['rg_bytes', a, r.choice(SIZES)]
    x = r.random()
    if x < .25:
        return ['rg_uniform', a, r.choice((1, 5, 40)), r.choice((1, 2, 3, 10, 1000, 65537, 2**31 - 1)).to_bytes(4, 'big')]
    return ['rg_words', a, r.choice((4, 8, 60, 119, 120, 121, 128, 240, 241))]


def replay(r, h, seed, hw):
    ev = [['rg_start', seed, hw, 0]]
    live = {0}
    for (c, a, b) in h:
        if c == 'f':
            ev.append(['rg_fork', a, b])
            live.add(b)
        elif c == 't':
            ev.append(['rg_thread', a, b])
            live.add(b)
        else:
            ev.append(draw(r, c, a))
    # everybody draws once more, so that a shared state shows
    for a in sorted(live, key=lambda _: r.random()):
        ev.append(['rg_bytes', a, r.choice((32, 64, 100))])
        ev.append(['rg_words', a, r.choice((8, 16))])
    return ev


MAXES = [0, 1, 2, 3, 5, 7, 10, 255, 256, 257, 65535, 65536, 65537, 2**24 + 1, 2**30, 3 * 2**29, 2**30 * 3, 2**31 - 1, 2**31,
         2**31 + 1, 2**31 + 2**30, 0xaaaaaaab, 0xcccccccd, 2**32 - 2, 2**32 - 1]


def check(c):
    r = vt.rng('c09')
    hs = schedules(c, 6 if vt.THOROUGH else 5, 4)
    tr = []
    for i, h in enumerate(r.sample(hs, min(len(hs), 1500 if vt.THOROUGH else 220))):
        hw = (0, 0, 1, 2, 3)[i % 5]
        s = r.randrange(1, 2**30)
        ev = replay(r, h, s, hw)
        if i % 3 == 0:
            ev += replay(r, h, s + 1, hw)      # the same schedule under other entropy
        tr.append(ev)
    # long runs of one generator
    for k in range(12 if vt.THOROUGH else 4):
        ev = [['rg_start', r.randrange(1, 2**30), (0, 3)[k % 2], 0]]
        for _ in range(60):
            ev.append(draw(r, r.choice('bw'), 0))
        tr.append(ev)
        ev = [['rg_start', r.randrange(1, 2**30), (0, 3)[k % 2], 0]]
        ev += [['rg_bytes', 0, r.choice((0, 16, 64, 64, 64))] for _ in range(60)]
        tr.append(ev)
    # bounded integers against the words of a twin run
    for m in MAXES + [r.randrange(2, 2**32) for _ in range(60 if vt.THOROUGH else 15)]:
        s = r.randrange(1, 2**30)
        hw = r.choice((0, 3))
        tr.append([['rg_start', s, hw, 1], ['rg_words', 0, 400], ['rg_start', s, hw, 1], ['rg_uniform', 0, 130, m.to_bytes(4, 'big')]])
    # a chain of forks and a fan of forks, each member drawing before and after
    for k in range(6):
        ev = [['rg_start', r.randrange(1, 2**30), (0, 1)[k % 2], 0], ['rg_bytes', 0, 32]]
        for j in range(1, 9):
            ev.append([r.choice(('rg_fork', 'rg_fork', 'rg_thread')), j - 1 if k < 3 else 0, j])
            ev.append(draw(r, r.choice('bw'), j))
        for j in range(9):
            ev.append(['rg_bytes', j, 64])
        tr.append(ev)
    c.run('RngTrace', tr)
