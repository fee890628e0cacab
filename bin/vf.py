"""Machinery shared by the checks: builds the library and the drivers, runs TLC, replays behaviours, compares, reports."""
import json, os, sys, time, subprocess, glob, shutil, hashlib, concurrent.futures as cf, multiprocessing, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
NCPU = os.cpu_count() or 4
# every time-out of the machinery is generous: the machine that runs the checks may be slower
T0 = time.time()


class Err(Exception):
    """The check itself failed (not the code)."""


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


def work(name):
    d = os.path.join(BUILD, 'work', name)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    return d


# ---------------------------------------------------------------- build
FLAGS = {'d': '-std=c++17 -w -O1 -g0 -pipe',
         'double': '-std=c++17 -w -O1 -g0 -pipe -DIS_RP3D_DOUBLE_PRECISION_ENABLED',
         'asan': '-std=c++17 -w -O1 -g0 -pipe -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr'}


def ninja_write(path, flavour, drivers):
    bdir = os.path.join(BUILD, flavour)
    srcs = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
    out = ['cxx = g++', 'flags = %s -I%s/include -I%s/harness' % (FLAGS[flavour], REPO, VERIF),
           'rule cc\n  command = $cxx $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc',
           'rule ar\n  command = rm -f $out && ar rcs $out $in',
           'rule ld\n  command = $cxx $flags $in -o $out -lpthread']
    objs = []
    for s in srcs:
        o = os.path.join(bdir, 'o', os.path.relpath(s, REPO + '/src').replace('/', '_') + '.o')
        objs.append(o)
        out.append('build %s: cc %s' % (o, s))
    lib = os.path.join(bdir, 'librp3d.a')
    out.append('build %s: ar %s' % (lib, ' '.join(objs)))
    exes = []
    for d in drivers:
        o = os.path.join(bdir, 'o', 'drv_' + d + '.o')
        e = os.path.join(bdir, d)
        out.append('build %s: cc %s' % (o, os.path.join(VERIF, 'harness', d + '.cpp')))
        out.append('build %s: ld %s %s' % (e, o, lib))
        exes.append(e)
    out.append('build all: phony %s %s' % (lib, ' '.join(exes)))
    with open(path, 'w') as f:
        f.write('\n'.join(out) + '\n')


def build(drivers, flavour='d'):
    """Builds the library from REPO's working tree and the drivers; returns {driver: executable}."""
    bdir = os.path.join(BUILD, flavour)
    os.makedirs(os.path.join(bdir, 'o'), exist_ok=True)
    nf = os.path.join(bdir, 'build_%s.ninja' % '_'.join(drivers))
    ninja_write(nf, flavour, drivers)
    p = subprocess.run(['ninja', '-f', nf, '-C', bdir, 'all'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Err('build failed:\n' + p.stdout[-3000:])
    log('built', flavour, drivers)
    return {d: os.path.join(bdir, d) for d in drivers}


# ---------------------------------------------------------------- TLC
def mc_module(wdir, name, base, defs, extra=''):
    """A model: module `name' extends `base' and defines the constants."""
    for f in glob.glob(SPEC + '/*.tla'):
        shutil.copy(f, wdir)
    plain = {}
    lines = ['---- MODULE %s ----' % name, 'EXTENDS %s' % base]
    cfg = []
    for k, v in defs.items():
        lines.append('c_%s == %s' % (k, v))
        cfg.append('CONSTANT %s <- c_%s' % (k, k))
    lines.append(extra)
    lines.append('====')
    with open(os.path.join(wdir, name + '.tla'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return cfg


def tlc_cmd(wdir, name, mem='1500m', args=()):
    return ['timeout', '-k', '5', '600', 'java', '-Xmx' + mem, '-Xss16m', '-XX:+UseSerialGC' if mem != '12g' else '-XX:+UseParallelGC',
            '-Djava.io.tmpdir=' + wdir, '-cp', JAR + ':' + cm_jars(), 'tlc2.TLC', '-metadir', os.path.join(wdir, 'st_' + name)] + list(args) + ['-config', name + '.cfg', name + '.tla']


_cm = None


def cm_jars():
    global _cm
    if _cm is None:
        _cm = ':'.join(sorted(glob.glob('/opt/veriftools/tla/*.jar')))
    return _cm


def parse_tlc(stdout):
    """The behaviours a model printed, and TLC's own counts."""
    beh = []
    for line in stdout.split('\n'):
        if line.startswith('"@@'):
            beh.append(json.loads(json.loads(line)[2:]))
    return beh


def errtext(out):
    ls = [l for l in out.split('\n') if not l.startswith('"@@')]
    i = next((k for k, l in enumerate(ls) if 'Error' in l or 'rror:' in l), 0)
    return '\n'.join(ls[i:i + 12])[:2500] + '\n...\n' + '\n'.join(ls)[-1500:]


def tlc_fail(out):
    bad = [l for l in out.split('\n') if 'Error:' in l or 'violated' in l or 'Exception' in l]
    return bad


def tlc_simulate(wdir, base, defs, num, depth, jobs=None, spec='Spec', inv=(), seed=None, tag='', extra=''):
    """Random behaviours of a specification (several JVMs), with the invariants checked on every state."""
    jobs = jobs or NCPU
    name = 'MC' + base + tag
    cfg = mc_module(wdir, name, base, defs, extra)
    with open(os.path.join(wdir, name + '.cfg'), 'w') as f:
        f.write('SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % spec + '\n'.join(cfg) + '\n' + ''.join('INVARIANT %s\n' % i for i in inv))
    s0 = (SEED if seed is None else seed) * 1009

    def one(k):
        d = os.path.join(wdir, 's%s_%d' % (tag, k))
        os.makedirs(d, exist_ok=True)
        for f in glob.glob(wdir + '/*.tla') + [os.path.join(wdir, name + '.cfg')]:
            shutil.copy(f, d)
        cmd = tlc_cmd(d, name, args=['-workers', '1', '-simulate', 'num=%d' % max(1, num // jobs), '-depth', str(depth + 3), '-seed', str(s0 + k)])
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or tlc_fail(p.stdout):
            raise Err('TLC -simulate failed (%d) on %s:\n%s' % (p.returncode, name, errtext(p.stdout)))
        r = parse_tlc(p.stdout)
        shutil.rmtree(d)
        return r
    beh = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(one, range(jobs)):
            beh += r
    steps = sum(len(b) for b in beh)
    log('TLC simulated %d behaviours, %d steps of %s' % (len(beh), steps, name))
    if not beh:
        raise Err('TLC produced no behaviour of ' + name)
    return beh


def tlc_check(wdir, base, defs, spec='Spec', inv=(), props=(), view=None, constraint=None, actcon=None, tag='', extra='', mem='8g', workers=None, allow_viol=False, maxbeh=60000):
    """Exhaustive model checking. Returns (distinct states, states generated, behaviours printed, output)."""
    name = 'MC' + base + tag
    cfg = mc_module(wdir, name, base, defs, extra)
    with open(os.path.join(wdir, name + '.cfg'), 'w') as f:
        f.write('SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % spec + '\n'.join(cfg) + '\n' + ''.join('INVARIANT %s\n' % i for i in inv) +
                ''.join('PROPERTY %s\n' % i for i in props) + ('VIEW %s\n' % view if view else '') +
                ('CONSTRAINT %s\n' % constraint if constraint else '') + ('ACTION_CONSTRAINT %s\n' % actcon if actcon else ''))
    cmd = tlc_cmd(wdir, name, mem=mem, args=['-workers', str(workers or NCPU), '-fp', '7'])
    p = subprocess.run(cmd, cwd=wdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = p.stdout
    if (p.returncode != 0 or tlc_fail(out)) and not allow_viol:
        raise Err('TLC failed (%d) on %s:\n%s' % (p.returncode, name, errtext(out)))
    import re
    m = re.findall(r'([\d,]+) states generated.*?, ([\d,]+) distinct states found', out)
    gen, dist = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    beh = [l for l in out.split('\n') if l.startswith('"@@')]
    log('TLC checked %s: %d distinct states, %d transitions' % (name, dist, gen))
    if maxbeh and len(beh) > maxbeh:
        beh = random.Random(SEED).sample(beh, maxbeh)
    return dist, gen, beh, out


# ---------------------------------------------------------------- replay
def _run_chunk(exe, wdir, k, traces, attempt=0, env=None):
    """Runs one driver process over the traces; survives crashes. Returns {id: obs or {'crash': text}}."""
    res = {}
    todo = list(traces)
    n = 0
    while todo:
        n += 1
        fin = os.path.join(wdir, 'in_%s_%d' % (k, n))
        fout = os.path.join(wdir, 'out_%s_%d' % (k, n))
        with open(fin, 'w') as f:
            for t in todo:
                f.write(json.dumps(t) + '\n')
        if os.path.exists(fout):
            os.unlink(fout)
        p = subprocess.run([exe, fin, fout], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=wdir)
        got = 0
        if os.path.exists(fout):
            for line in open(fout):
                if line.endswith('\n'):
                    r = json.loads(line)
                    res[r['id']] = r['obs']
                    got += 1
            os.unlink(fout)
        os.unlink(fin)
        if p.returncode == 0 and got == len(todo):
            break
        if p.returncode in (2, 126, 127):
            raise Err('driver could not run: %s %s' % (exe, p.stderr[-500:]))
        bad = todo[got] if got < len(todo) else todo[-1]
        res[bad['id']] = {'crash': 'exit %d: %s' % (p.returncode, p.stderr.decode(errors='replace')[-400:].strip())}
        todo = todo[got + 1:]
        if sum(1 for v in res.values() if isinstance(v, dict)) > 20:
            break       # enough
    return res


def replay(exe, wdir, traces, jobs=None, env=None):
    jobs = jobs or NCPU
    chunks = [traces[i::jobs] for i in range(jobs)]
    res = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda kc: _run_chunk(exe, wdir, kc[0], kc[1], env=env), [(i, c) for i, c in enumerate(chunks) if c]):
            res.update(r)
    return res


def canon(x):
    return json.dumps(x, sort_keys=True)


def srt(l):
    return sorted(l, key=canon)


def near(exp, obs, key, tol=2e-3):
    """exp: nested lists of rationals [n,d]; obs: the same nesting of numbers."""
    if isinstance(obs, list):
        if not isinstance(exp, list) or len(exp) != len(obs):
            return '%s: observed %s, specified %s' % (key, canon(obs), canon(exp))
        for i, (a, b) in enumerate(zip(exp, obs)):
            r = near(a, b, '%s[%d]' % (key, i), tol)
            if r:
                return r
        return None
    if isinstance(obs, (int, float)) and not isinstance(obs, bool) and abs(obs - exp[0] / exp[1]) <= tol * max(1, abs(exp[0] / exp[1])):
        return None
    return '%s: observed %s, specified %s/%s' % (key, canon(obs), exp[0], exp[1]) if isinstance(exp, list) else key


def same(exp, obs, key=''):
    """Compares an expectation with an observation: s_* are multisets, `one' is any member (none when empty)."""
    if isinstance(exp, dict):
        if not isinstance(obs, dict):
            return '%s: %s instead of %s' % (key, canon(obs), canon(exp))
        for k in exp:
            if k not in obs:
                return '%s.%s is missing' % (key, k)
            if k.startswith('s_'):
                if srt(exp[k]) != srt(obs[k]):
                    return '%s.%s: observed %s, specified %s' % (key, k, canon(srt(obs[k])), canon(srt(exp[k])))
            elif k == 'one':
                if (obs[k] not in exp[k]) if exp[k] else obs[k] != []:
                    return '%s.%s: observed %s, specified one of %s' % (key, k, canon(obs[k]), canon(exp[k]))
            elif k.startswith('q_'):
                r = near(exp[k], obs[k], key + '.' + k)
                if r:
                    return r
            else:
                r = same(exp[k], obs[k], key + '.' + k)
                if r:
                    return r
        return None
    if isinstance(exp, list):
        if exp == obs and canon(exp) == canon(obs):
            return None
        if not isinstance(obs, list) or len(exp) != len(obs):
            return '%s: observed %s, specified %s' % (key, canon(obs), canon(exp))
        for i, (a, b) in enumerate(zip(exp, obs)):
            r = same(a, b, '%s[%d]' % (key, i))
            if r:
                return r
        return None
    if exp != obs or isinstance(exp, bool) != isinstance(obs, bool):
        return '%s: observed %s, specified %s' % (key, canon(obs), canon(exp))
    return None


RES = ('o', 'r', 's_r', 'one', 'ab')     # what an op is expected to yield


def compare(ops, obs, last=False):
    """First disagreement of an observed behaviour with the specified one: (index, text) or None."""
    if isinstance(obs, dict):
        return (len(ops) - 1, 'the library failed: ' + obs['crash'])
    if len(obs) != len(ops):
        return (len(obs), 'the behaviour is not complete')
    for i, (o, b) in enumerate(zip(ops, obs)):
        if last and i < len(ops) - 1:
            continue
        if 'e' in b:
            return (i, '%s: %s' % (o['op'], b['e']))
        r = same({k: o[k] for k in RES if k in o}, b, o['op'])
        if r:
            return (i, r)
    return None


FORK = multiprocessing.get_context('fork')
_job = None


def _conform(exe, wdir, tag, traces, params, env, last):
    traces = [json.loads(json.loads(t)[2:]) if isinstance(t, str) else t for t in traces]
    plist = params if isinstance(params, list) else [params or {}]
    ts = []
    for i, t in enumerate(traces):
        d = {'id': i, 'ops': [strip(o) for o in t]}
        if last:
            d['last'] = True
        d.update(plist[i % len(plist)])
        ts.append(d)
    res = _run_chunk(exe, wdir, tag, ts, env=env)
    bad = []
    for i, t in enumerate(traces):
        if i in res:
            r = compare(t, res[i], last)
            if r:
                bad.append((t, r, plist[i % len(plist)]))
    steps = sum(len(t) for t in traces)
    return dict(n=len(res), steps=steps, cmp=len(res) if last else steps, bad=bad[:20], sample=traces[0] if traces else [])


def _conform_chunk(k):
    exe, wdir, chunks, params, env, last = _job
    return _conform(exe, wdir, 'c%d' % k, chunks[k], params, env, last)


def _sim_job(k):
    exe, wdir, name, num, depth, tag, params, env = _job
    d = os.path.join(wdir, 's%s_%d' % (tag, k))
    os.makedirs(d, exist_ok=True)
    for f in glob.glob(wdir + '/*.tla') + [os.path.join(wdir, name + '.cfg')]:
        shutil.copy(f, d)
    cmd = tlc_cmd(d, name, args=['-workers', '1', '-simulate', 'num=%d' % num, '-depth', str(depth + 3), '-seed', str(SEED * 1009 + k)])
    p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or tlc_fail(p.stdout):
        raise Err('TLC -simulate failed (%d) on %s:\n%s' % (p.returncode, name, errtext(p.stdout)))
    beh = parse_tlc(p.stdout)
    if not beh:
        raise Err('TLC produced no behaviour of ' + name)
    r = _conform(exe, wdir, 's%s%d' % (tag, k), beh, params, env, False)
    shutil.rmtree(d)
    return r


def _val_job(k):
    """Simulates call sequences, lets the driver record what the library answers, and has TLC accept or reject the record."""
    exe, wdir, base, gen, gspec, tdefs, num, depth, tag, plist, env = _job
    d = os.path.join(wdir, 'v%s_%d' % (tag, k))
    os.makedirs(d, exist_ok=True)
    if isinstance(num, int):
        for f in glob.glob(wdir + '/*.tla') + [os.path.join(wdir, gen + '.cfg')]:
            shutil.copy(f, d)
        cmd = tlc_cmd(d, gen, args=['-workers', '1', '-simulate', 'num=%d' % num, '-depth', str(depth + 3), '-seed', str(SEED * 1009 + k)])
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or tlc_fail(p.stdout):
            raise Err('TLC -simulate failed (%d) on %s:\n%s' % (p.returncode, gen, errtext(p.stdout)))
        beh = parse_tlc(p.stdout)
        if not beh:
            raise Err('TLC produced no behaviour of ' + gen)
    else:
        beh = num[k::NCPU]
    bad, ts = [], []
    for i, t in enumerate(beh):
        x = {'id': i, 'ops': [strip(o) for o in t]}
        x.update(plist[(i + k) % len(plist)])
        ts.append(x)
    res = _run_chunk(exe, d, 'x', ts, env=env)
    rec = []
    for i, t in enumerate(beh):
        if i not in res:
            continue
        if 'crash' in res[i]:
            bad.append((t, 'the library failed: ' + res[i]['crash'], plist[(i + k) % len(plist)]))
        else:
            rec.append((i, res[i]))
    steps = sum(len(r['ev']) for _, r in rec)
    if rec:
        fn = os.path.join(d, 'rec')
        with open(fn + '1', 'w') as f:
            for _, r in rec:
                f.write(json.dumps(r) + '\n')
        name = 'TV' + base
        dd = dict(tdefs)
        dd.update(File='"%s"' % fn, Jobs='1')
        cfg = mc_module(d, name, base, dd)
        with open(os.path.join(d, name + '.cfg'), 'w') as f:
            f.write('SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\nINVARIANT Accepted\n' + '\n'.join(cfg) + '\n')
        p = subprocess.run(tlc_cmd(d, name, mem='2g', args=['-workers', '1', '-continue']), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        rej = parse_tlc(p.stdout)
        if not rej and (p.returncode != 0 or tlc_fail(p.stdout)):
            raise Err('TLC failed (%d) on the record of %s:\n%s' % (p.returncode, tag, errtext(p.stdout)))
        seen = set()
        for r in rej:
            i, o = rec[r['t'] - 1]
            if i not in seen:
                seen.add(i)
                e = o['ev'][r['k'] - 1]
                text = [x['text'] for x in o['ev'] if x['op'] == 'error'] if e['op'] == 'error' else ''
                bad.append((beh[i], 'recorded event %d is not allowed by the specification: %s %s' % (r['k'], canon(e), text), plist[(i + k) % len(plist)]))
    shutil.rmtree(d)
    return dict(n=len(res), steps=steps, bad=bad[:20], sample=rec[0][1]['ev'][:8] if rec else [])


# ---------------------------------------------------------------- check
class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.cov = {}
        self.viol = []
        self.assume = []
        self.samples = []
        self.wd = work(pid)
        self.known = []
        kf = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(kf):
            for l in open(kf):
                l = l.strip()
                if l.startswith('known: property=' + pid + ' '):
                    self.known.append(l[len('known: property=' + pid + ' '):])

    def add(self, k, n):
        self.cov[k] = self.cov.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s)

    def violation(self, what, data):
        d = os.path.join(BUILD, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.pid, len(self.viol)))
        with open(p, 'w') as f:
            json.dump({'property': self.pid, 'what': what, 'data': data}, f, indent=1)
        self.viol.append((what, p))

    def conform(self, exe, traces, name, params=None, maxviol=3, env=None, last=False):
        """Replays behaviours of a specification (lists of calls, or JSON texts of them) and compares the observations
        (with `last': of the last call only). Violations are confirmed by a second run."""
        jobs = max(1, min(NCPU, len(traces) // 4))
        chunks = [traces[i::jobs] for i in range(jobs)]
        global _job
        _job = (exe, self.wd, chunks, params, env, last)
        if jobs == 1:
            rs = [_conform_chunk(0)]
        else:
            with cf.ProcessPoolExecutor(jobs, mp_context=FORK) as ex:
                rs = list(ex.map(_conform_chunk, range(jobs)))
        return self._judge(exe, rs, name, params, maxviol, env, last)

    def _judge(self, exe, rs, name, params, maxviol, env, last):
        bad = [b for r in rs for b in r['bad']]
        confirmed = 0
        for ops, r, prm in bad[:10]:
            t = {'id': 0, 'ops': [strip(o) for o in ops], 'last': last}
            t.update(prm or {})
            again = _run_chunk(exe, self.wd, 'again', [t], env=env)
            r2 = compare(ops, again[0], last)
            if not r2:
                log('not reproduced (ignored):', r)
                continue
            confirmed += 1
            if confirmed <= maxviol:
                k = r2[0]
                self.violation('%s step %d: %s' % (name, k, r2[1]), {'driver': os.path.basename(exe), 'params': prm, 'ops': ops[:k + 1]})
        self.add('traces_validated_against_impl', sum(r['n'] for r in rs))
        self.add('steps_compared', sum(r['cmp'] for r in rs))
        for r in rs[:1]:
            if r['sample']:
                self.sample({'config': name, 'ops': [slim(o) for o in r['sample'][:12]]})
        log('replayed %s: %d behaviours, %d steps, %d disagree (%d confirmed)' % (name, sum(r['n'] for r in rs), sum(r['steps'] for r in rs), len(bad), confirmed))
        return [(b[0], b[1]) for b in bad]

    def sim(self, exe, base, defs, num, depth, tag, params=None, inv=('TypeOK',), spec='Spec', extra='', maxviol=3, env=None):
        """Random behaviours of a specification, replayed and compared; every process simulates and replays its share."""
        name = 'MC' + base + tag
        cfg = mc_module(self.wd, name, base, defs, extra)
        with open(os.path.join(self.wd, name + '.cfg'), 'w') as f:
            f.write('SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % spec + '\n'.join(cfg) + '\n' + ''.join('INVARIANT %s\n' % i for i in inv))
        global _job
        _job = (exe, self.wd, name, max(1, num // NCPU), depth, tag, params if isinstance(params, list) else [params or {}], env)
        with cf.ProcessPoolExecutor(NCPU, mp_context=FORK) as ex:
            rs = list(ex.map(_sim_job, range(NCPU)))
        self.add('states', sum(r['steps'] + r['n'] for r in rs))
        self.add('transitions', sum(r['steps'] for r in rs))
        return self._judge(exe, rs, name, None, maxviol, env, False)

    def validate(self, exe, base, defs, num, depth, tag, params=None, tdefs=None, inv=(), spec='Spec', maxviol=3, env=None):
        """Trace validation: sequences of calls generated by the specification (or given), recorded on the library, checked by TLC."""
        gen = 'MC' + base + tag
        if isinstance(num, int):
            cfg = mc_module(self.wd, gen, base, defs)
            with open(os.path.join(self.wd, gen + '.cfg'), 'w') as f:
                f.write('SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % spec + '\n'.join(cfg) + '\n' + ''.join('INVARIANT %s\n' % i for i in inv))
            num = max(1, num // NCPU)
        global _job
        _job = (exe, self.wd, base, gen, spec, tdefs or defs, num, depth, tag, params if isinstance(params, list) else [params or {}], env)
        with cf.ProcessPoolExecutor(NCPU, mp_context=FORK) as ex:
            rs = list(ex.map(_val_job, range(NCPU)))
        bad = [b for r in rs for b in r['bad']]
        for ops, what, prm in bad[:maxviol]:
            self.violation('%s: %s' % (gen, what), {'driver': os.path.basename(exe), 'params': prm, 'ops': ops})
        n = sum(r['n'] for r in rs)
        self.add('traces_validated_against_impl', n)
        self.add('steps_compared', sum(r['steps'] for r in rs))
        self.add('states', sum(r['steps'] for r in rs) + n)
        self.add('transitions', sum(r['steps'] for r in rs))
        self.sample({'config': gen, 'recorded': rs[0]['sample']})
        log('validated %s: %d recorded traces, %d events, %d rejected' % (gen, n, sum(r['steps'] for r in rs), len(bad)))

    def finish(self):
        cov = dict(self.cov)
        cov['samples'] = self.samples or ['none']
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {'property': self.pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': self.level, 'coverage': cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - T0, 2), 'violations': len(self.viol)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.wd, ignore_errors=True)
        for what, p in self.viol:
            print('  ' + what[:1500])
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
        if self.viol:
            return 1
        log('property %s held on everything explored' % self.pid)
        return 0


def strip(o):
    return {k: v for k, v in o.items() if k not in ('o', 'r', 'one', 'ab') and not (k == 's_r' and o['op'] != 'aabb')}


def slim(o):
    return {k: v for k, v in o.items() if k != 'o'}
