"""Common machinery of the checks: build, drive, validate with TLC, report."""
import concurrent.futures, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
TLA = '/opt/veriftools/tla'
NCPU = min(8, os.cpu_count() or 8)

SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'


class CheckError(Exception):
    """The check itself failed (neither held nor violated)."""


def log(*a):
    print('[%7.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


def rng(*tag):
    """A generator depending only on VERIF_SEED and the tag."""
    h = hashlib.sha256(('%d|%s' % (SEED, '|'.join(map(str, tag)))).encode()).digest()
    return random.Random(int.from_bytes(h, 'big'))


# ---------------------------------------------------------------- building

COMMON = ['TORSION_HAVE_CONFIG', 'TORSION_HAVE_CLOCK_GETTIME', 'TORSION_HAVE_FORK', 'TORSION_HAVE_GETTIMEOFDAY',
          'TORSION_HAVE_PTHREAD', 'TORSION_HAVE_RNG', 'TORSION_HAVE_TIME', 'TORSION_TLS=__thread']
WIDE = ['TORSION_HAVE_ASM', 'TORSION_HAVE_INT128']
DBG = ['TORSION_DEBUG', 'TORSION_VERIFY']
ASAN = ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer']
# name -> (defines, flags)
VARIANTS = {
    'w64': (COMMON + WIDE + DBG, ASAN),             # 64-bit limbs, inline assembly, assertions, ASan
    'w32': (COMMON + DBG, ASAN),                    # 32-bit limbs, portable C, assertions, ASan
    'rel': (COMMON + WIDE, ['-O3', '-g1']),         # as released
    'rel32': (COMMON, ['-O2', '-g1']),              # portable, as released
    'l32': (COMMON + DBG + ['VT_LIMB32'], ASAN),    # as w32, and multi-precision integers of 32-bit limbs
    'c64': (COMMON + ['TORSION_HAVE_INT128'], ['-O2', '-g1']),  # 64-bit limbs, no inline assembly, no hardware randomness
}
CC = '/usr/bin/gcc'
# calls to the system that harness/d_rand.c takes over
WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in (
    'syscall getrandom getentropy open open64 fstat fstat64 poll fcntl fcntl64 read close torsion__has_rdrand '
    'torsion__rdrand32 torsion__hwrand').split())]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def _compile(src, incs, defs, flags):
    """Compile one file; the object is cached under the hash of its preprocessed text and flags."""
    base = ['-I' + i for i in incs] + ['-D' + d for d in defs] + ['-w', '-std=gnu99']
    if src.startswith(VERIF):
        base.append('-D_GNU_SOURCE=')
    if 'VT_LIMB32' in defs:
        base += ['-include', os.path.join(VERIF, 'harness', 'limb32.h')]
    pre = sh([CC, '-E', '-P'] + base + [src])
    if pre.returncode:
        raise CheckError('preprocessing %s failed:\n%s' % (src, pre.stderr.decode()[-3000:]))
    key = hashlib.sha256(pre.stdout + repr((flags, defs)).encode()).hexdigest()[:32]
    obj = os.path.join(BUILD, 'obj', key + '.o')
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = '%s.%d.%s.tmp' % (obj, os.getpid(), hashlib.md5(src.encode()).hexdigest()[:6])
        r = sh([CC] + flags + base + ['-c', src, '-o', tmp])
        if r.returncode:
            raise CheckError('compiling %s failed:\n%s' % (src, r.stderr.decode()[-3000:]))
        os.rename(tmp, obj)
    else:
        os.utime(obj)
    return obj


def lib_sources():
    fs = sorted(glob.glob(REPO + '/src/**/*.c', recursive=True))
    if not fs:
        raise CheckError('no sources under %s/src' % REPO)
    return fs


def build(variant, drivers=None, extra_defs=(), extra_flags=(), ld=(), name=None, exclude=()):
    """Build the driver for one variant of the library; returns the path of the executable."""
    defs, flags = VARIANTS[variant]
    defs = list(defs) + list(extra_defs)
    flags = list(flags) + list(extra_flags)
    H = os.path.join(VERIF, 'harness')
    drivers = drivers or ['drv'] + sorted(os.path.basename(f)[:-2] for f in glob.glob(H + '/d_*.c'))
    jobs = []
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for f in sorted(lib_sources(), key=lambda f: -os.path.getsize(f)):
            if os.path.basename(f) in exclude:
                continue
            jobs.append(ex.submit(_compile, f, [REPO + '/include'], defs, flags))
        dflags = [f for f in flags if not f.startswith('-O')] + ['-O1']
        for d in drivers:
            jobs.append(ex.submit(_compile, os.path.join(H, d + '.c'), [REPO + '/include', H], defs, dflags))
        objs = [j.result() for j in jobs]
    key = hashlib.sha256((' '.join(objs) + repr((flags, ld))).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'bin', '%s-%s-%s' % (name or drivers[0], variant, key))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        san = [f for f in flags if f.startswith('-fsanitize=address')]
        tmp = exe + '.%d.tmp' % os.getpid()
        r = sh([CC] + san + objs + ['-o', tmp, '-lpthread', '-lm'] + (WRAP if 'd_rand' in drivers else []) + list(ld))
        if r.returncode:
            raise CheckError('linking failed:\n' + r.stderr.decode()[-3000:])
        os.rename(tmp, exe)
    return exe


def build_all(variants, **kw):
    with concurrent.futures.ThreadPoolExecutor(len(variants)) as ex:
        return dict(zip(variants, ex.map(lambda v: build(v, **kw), variants)))


def classes():
    """Compile the TLC operator overrides (cached by content)."""
    src = sorted(glob.glob(SPEC + '/java/*.java'))
    key = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()[:16]
    d = os.path.join(BUILD, 'classes-' + key)
    if not os.path.isdir(d):
        tmp = d + '.%d.tmp' % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        r = sh(['javac', '-nowarn', '-cp', TLA + '/tla2tools.jar', '-d', tmp] + src)
        if r.returncode:
            raise CheckError('javac failed:\n' + r.stderr.decode()[-3000:])
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        os.makedirs(BUILD, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix='run-', dir=BUILD)
    return _scratch


# ---------------------------------------------------------------- driving

def tok(v):
    if v is None:
        return 'n'
    if isinstance(v, bool):
        return '1' if v else '0'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (bytes, bytearray)):
        return 'x' + v.hex()
    if isinstance(v, str):
        return 's' + v
    raise TypeError(v)


def jarg(v):
    """Argument as it appears in the event."""
    if v is None:
        return 'NULL'
    if isinstance(v, (bytes, bytearray)):
        return v.hex()
    if isinstance(v, bool):
        return 1 if v else 0
    if isinstance(v, int) and not -2**31 < v < 2**31:
        return '%x' % v
    return v


def jres(t):
    return t[1:] if t[:1] == 'x' else t


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:symbolize=0',
           LC_ALL='C')


def _drive(exe, traces, timeout):
    """Run a list of traces; returns the list of result-token lists per event."""
    out = []
    k = 0
    while k < len(traces):
        lines = []
        for tr in traces[k:]:
            lines.append('reset')
            for ev in tr:
                lines.append(' '.join([ev[0]] + [tok(a) for a in ev[1:]]))
        inp = ('\n'.join(lines) + '\n').encode()
        t = time.time()
        timed = False
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
        try:
            so, se = p.communicate(inp, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            timed = True
        res = so.decode('latin1').split('\n')
        res.pop()
        pos = 0
        done = True
        for tr in traces[k:]:
            need = 1 + len(tr)
            got = res[pos:pos + need]
            r = [x.split(' ') for x in got[1:]]
            r = [[jres(y) for y in x if y != ''] for x in r]
            if len(got) < need:
                if p.returncode == 3:
                    raise CheckError('driver: ' + se.decode()[-500:])
                why = 'TIMEOUT' if timed else 'CRASH'
                msg = se.decode('latin1')
                m = re.search(r'(AddressSanitizer: [\w-]+|[Aa]ssert[^\n]*|.*failed.*)', msg)
                r = r[:len(tr)]
                r.append([why, (m.group(0) if m else 'signal %s' % p.returncode)[:200].replace('"', "'").replace('\\', '/')])
                out.append(r)
                done = False
                break
            out.append(r)
            pos += need
        if timed:
            out += [[] for _ in range(len(traces) - len(out))]
        if done or timed:
            break
        k = len(out)
    return out


def drive(exe, traces, timeout=150, jobs=None):
    jobs = jobs or NCPU
    n = max(1, min(jobs * 3, len(traces)))
    idx = [list(range(i, len(traces), n)) for i in range(n)]
    res = [None] * len(traces)
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for ix, rs in zip(idx, ex.map(lambda ix: _drive(exe, [traces[i] for i in ix], timeout), idx)):
            for i, r in zip(ix, rs):
                res[i] = r
    return res


def events(traces, results):
    """Join commands and results to event traces (truncated after a crash)."""
    out = []
    for tr, rs in zip(traces, results):
        ev = []
        for c, r in zip(tr, rs):
            ev.append({'op': c[0], 'a': [jarg(a) for a in c[1:]], 'r': r})
        out.append(ev)
    return out


# ---------------------------------------------------------------- TLC

class TlcResult:
    pass


def tlc(module, cfg=None, env=None, workers=None, args=(), timeout=880, heap='10g', constants=None, extra_cfg=None):
    """Run TLC on spec/<module>.tla; cfg is the text or the name of a configuration."""
    d = tempfile.mkdtemp(prefix='tlc-', dir=scratch())
    if cfg is None:
        cfgp = os.path.join(SPEC, module + '.cfg')
    elif '\n' in cfg:
        cfgp = os.path.join(d, module + '.cfg')
        open(cfgp, 'w').write(cfg)
    else:
        cfgp = os.path.join(SPEC, cfg)
    cmd = ['java', '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + d,
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:VtOv',
           '-cp', ':'.join([classes(), TLA + '/tla2tools.jar', TLA + '/CommunityModules-deps.jar']),
           'tlc2.TLC', '-deadlock', '-noGenerateSpecTE', '-workers', str(workers or NCPU),
           '-metadir', os.path.join(d, 'meta'), '-config', cfgp] + list(args) + [module + '.tla']
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out on ' + module)
    o = r.stdout.decode('utf8', 'replace')
    x = TlcResult()
    x.out, x.rc, x.wall = o, r.returncode, time.time() - t
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', o)
    x.generated, x.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    shutil.rmtree(d, ignore_errors=True)
    return x


TRACE_CFG = 'INIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n'


class Validation:
    def __init__(self):
        self.states = self.transitions = self.traces = self.events = 0
        self.rejects = []      # (trace index, event index, expected)


def validate(module, evs, timeout=880, heap='10g', env=None, chunk_events=400000):
    """Validate event traces against <module>.tla."""
    v = Validation()
    if not evs:
        return v
    path = os.path.join(scratch(), 'traces-%s-%d.json' % (module, len(os.listdir(scratch()))))
    with open(path, 'w') as f:
        json.dump(evs, f)
    x = tlc(module, TRACE_CFG, env=dict(env or {}, VT_TRACE=path), timeout=timeout, heap=heap)
    os.unlink(path)
    rej = []
    for m in re.finditer(r'"REJECT (\d+) (\d+) (.*?)"$', x.out, re.M):
        rej.append((int(m.group(1)) - 1, int(m.group(2)) - 1, m.group(3)))
    want = sum(len(e) + 1 for e in evs)
    if 'Model checking completed. No error has been found.' not in x.out:
        i = x.out.find('Error:')
        raise CheckError('TLC failed on %s:\n%s' % (module, x.out[max(0, i - 200):i + 1500] + "\n...\n" + x.out[-1500:]))
    if not rej and x.distinct != want:
        raise CheckError('TLC accepted %d states of %d on %s' % (x.distinct, want, module))
    v.states, v.transitions = x.distinct, x.distinct - len(evs)
    v.traces, v.events = len(evs) - len({r[0] for r in rej}), sum(map(len, evs))
    v.rejects = sorted(set(rej))
    v.wall = x.wall
    return v


# ---------------------------------------------------------------- a check

class Check:
    def __init__(self, pid, bounds=None):
        self.pid = pid
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.samples = []
        self.models = []
        self.assumptions = []
        self.violations = []
        self.known = []
        self.coverage = {}
        self.replays = 0

    # model checking of a design-level specification
    def model(self, module, cfg=None, expect='ok', **kw):
        x = tlc(module, cfg, **kw)
        ok = 'Model checking completed. No error has been found.' in x.out
        if expect != 'ok':              # a design without one of its rules must break this invariant
            ok = 'Invariant %s is violated' % expect in x.out
        if not ok:
            i = x.out.find('Error:')
            raise CheckError('model %s (%s) failed:\n%s' % (module, cfg, x.out[max(0, i - 100):i + 4000]))
        self.states += x.distinct
        self.transitions += x.generated
        self.models.append({'module': module, 'config': cfg if cfg and '\n' not in cfg else 'inline', 'states': x.distinct,
                            'generated': x.generated, 'wall_s': round(x.wall, 1)})
        log('model', module, x.distinct, 'states', '%.1fs' % x.wall)
        return x

    def run(self, module, traces, variants=('w64', 'w32'), exes=None, timeout=150, group=None, drivers=None, env=None,
            rerun=True):
        """Drive the traces through every variant and validate the recorded events."""
        if not traces:
            return
        exes = exes or build_all(list(variants), drivers=drivers)
        t = time.time()
        seen, allev, origin = {}, [], []
        for v in exes:
            evs = events(traces, drive(exes[v], traces, timeout))
            for i, e in enumerate(evs):
                if not e:
                    continue
                k = hashlib.sha256(json.dumps(e).encode()).digest()
                if k in seen:
                    continue
                seen[k] = len(allev)
                allev.append(e)
                origin.append((v, i))
        log('drove', len(traces), 'traces,', sum(map(len, traces)), 'calls x', len(exes), 'variants', '%.1fs' % (time.time() - t))
        val = validate(module, allev, env=env)
        log('TLC', module, val.states, 'states', '%.1fs' % val.wall, 'rejected', len(val.rejects))
        self.states += val.states
        self.transitions += val.transitions
        self.traces += val.traces
        self.events += val.events
        for e in allev[:3]:
            if len(self.samples) < 12:
                s = json.dumps(e)
                self.samples.append(s if len(s) < 600 else s[:600] + '...')
        if val.rejects and rerun:
            # a rejection counts only if driving and validating it again repeats it
            picks = val.rejects[:int(os.environ.get('VT_PICKS', '20'))]
            hung = [p for p in picks if 'TIMEOUT' in json.dumps(allev[p[0]][-1:])]
            picks = [p for p in picks if p not in hung] or hung[:2]
            confirmed = False
            for attempt in range(4):
                with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
                    again = list(ex.map(lambda p: events([traces[origin[p[0]][1]]],
                                                         _drive(exes[origin[p[0]][0]], [traces[origin[p[0]][1]]], min(timeout, 60)))[0], picks))
                rej2 = {r[0] for r in validate(module, again, env=env).rejects}
                for j, (ti, ei, exp) in enumerate(picks):
                    if j in rej2:
                        v, i = origin[ti]
                        self.reject(module, v, traces[i], allev[ti], ei, exp)
                        confirmed = True
                if confirmed:
                    break
            if not confirmed:
                ti, ei, exp = picks[0]
                raise CheckError('rejection not repeated: %s %r' % (origin[ti][0], allev[ti][ei]))
        elif val.rejects:
            for (ti, ei, exp) in val.rejects[:20]:
                v, i = origin[ti]
                self.reject(module, v, traces[i], allev[ti], ei, exp)
        return val

    def reject(self, module, variant, trace, ev, ei, exp):
        e = ev[min(ei, len(ev) - 1)]
        what = 'variant=%s op=%s args=%s got=%s expected=%s' % (
            variant, e['op'], json.dumps(e['a'])[:300], json.dumps(e['r'])[:300], exp[:300])
        k = self.match_known(variant, e)
        if k:
            if k not in self.known:
                self.known.append(k)
            return
        self.violations.append({'what': what, 'module': module, 'variant': variant,
                                'commands': [[c[0]] + [tok(a) for a in c[1:]] for c in trace], 'event': ei, 'events': ev})

    def match_known(self, variant, e):
        for k in KNOWN:
            if k['property'] != self.pid:
                continue
            if k.get('op') and k['op'] != e['op']:
                continue
            if k.get('args') is not None and k['args'] != e['a']:
                continue
            return k['text']
        return None

    def finish(self, level='model_checking'):
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'events_validated': self.events,
               'models': self.models, 'samples': self.samples}
        cov.update(self.coverage)
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov,
              'assumptions': self.assumptions, 'violations': [v['what'] for v in self.violations],
              'wall_s': round(time.time() - T0, 2)}
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, self.pid), 'w'), indent=1)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        if self.violations:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, '%s-%d.json' % (self.pid, SEED))
            json.dump(self.violations, open(p, 'w'), indent=1)
            for v in self.violations[:10]:
                log('violation:', v['what'])
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(p, VERIF)), flush=True)
            return 1
        log('held: %d states, %d traces, %d events' % (self.states, self.traces, self.events))
        return 0


def load_known():
    p = os.path.join(VERIF, 'known-findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                out.append(json.loads(line))
    return [k for k in out if k.get('status') != 'fixed']


KNOWN = load_known()


def prune():
    """Keep the build cache bounded."""
    for sub, keep in (('obj', 900), ('bin', 60)):
        fs = sorted(glob.glob(os.path.join(BUILD, sub, '*')), key=os.path.getmtime)
        for f in fs[:-keep]:
            try:
                os.unlink(f)
            except OSError:
                pass


def main(pid, fn):
    c = Check(pid)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        print('check error: %s' % e, file=sys.stderr)
        rc = 2
    finally:
        if _scratch:
            shutil.rmtree(_scratch, ignore_errors=True)
        prune()
    return rc
