"""Runner shared by every check.

A property is a module checks/<id>.py that creates a `Prop` and registers sub-checks on it.  A
sub-check is a function of one JSON-able `case` (drawn by a Hypothesis strategy, or taken from an
explicit enumeration) and a `Ctx` that counts what the case exercised; it raises on a violation.
Each sub-check runs in its own forked process, so a crash of native code, or a hang, is attributed
to the case that caused it.  Every random choice derives from VERIF_SEED.
"""
import argparse, glob, hashlib, importlib, json, os, resource, shutil, signal, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
REPLAYS = os.path.join(VERIF, 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Violation(AssertionError):
    pass


class Finding(Exception):
    """Raised inside a sub-check to say: this case shows the listed finding `fid`."""
    def __init__(self, fid, text=''):
        Exception.__init__(self, fid, text)
        self.fid, self.text = fid, text


class Prop:
    def __init__(self, pid, rule, assumptions=(), warm=None):
        self.pid, self.rule, self.assumptions, self.warm = pid, rule, list(assumptions), warm
        self.subs = []

    def sub(self, name, strategy=None, quick=100, thorough=None, cases=(), exhaustive=False,
            soft=120):
        """Register a sub-check.  `cases`: explicit cases, or a function tier -> list of cases.
        `strategy`: Hypothesis strategy for generated cases."""
        def deco(f):
            self.subs.append(dict(name=name, f=f, strategy=strategy, quick=quick,
                                  thorough=thorough if thorough is not None else quick * 20,
                                  cases=cases, exhaustive=exhaustive, soft=soft))
            return f
        return deco


def _no_such_name(e):
    """The check itself asked for a private name that the package no longer has: nothing is decided."""
    if not isinstance(e, AttributeError) or not (e.name or '').startswith('_') or (e.name or '').startswith('__'):
        return False
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return tb.tb_frame.f_code.co_filename.startswith(VERIF + os.sep)


class Ctx:
    def __init__(self, known=()):
        self.classes = {}
        self.nontrivial = True
        self.known = set(known)
        self.seen_known = {}

    def tag(self, label, cond=True):
        if cond:
            self.classes[label] = self.classes.get(label, 0) + 1

    def trivial(self, cond=True):
        if cond:
            self.nontrivial = False


def canon(case):
    return json.dumps(case, sort_keys=True, default=_js)


def _js(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (set, tuple)):
        return list(o)
    return repr(o)


def _short(case, limit=700):
    s = canon(case)
    return case if len(s) <= limit else s[:limit] + '...'


def sub_seed(seed, pid, name):
    return int.from_bytes(hashlib.sha256(('%d/%s/%s' % (seed, pid, name)).encode()).digest()[:6], 'big')


def _describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ''
    for fr in reversed(tb):
        if '/vh/core.py' not in fr.filename and 'hypothesis' not in fr.filename:
            where = ' at %s:%d' % (fr.filename, fr.lineno)
            break
    return ('%s: %s%s' % (type(exc).__name__, str(exc)[:1500], where))


SHRINK = 60         # seconds to spend on shrinking


def run_sub(prop, sub, tier, seed, known, curfile):
    """Run one sub-check in this process; returns a JSON-able result."""
    res = dict(sub=sub['name'], evaluations=0, failed=None, known={}, truncated=False)
    nontriv, samples, classes = set(), [], {}
    failing = {}            # canon(case) -> (case, message)
    state = dict(stop=None)
    t0 = time.time()

    def one(case):
        if state['stop'] is not None:
            if time.time() > state['stop']:
                # shrinking ran out of its budget: only failures already seen count
                if canon(case) in failing:
                    raise Violation(failing[canon(case)][1])
                return
        elif time.time() - t0 > sub['soft'] * (1 if tier == 'quick' else 12):
            res['truncated'] = True
            return
        key = canon(case)
        with open(curfile, 'w') as fh:
            fh.write(key)
        ctx = Ctx(known)
        res['evaluations'] += 1
        import numpy as np
        np.random.seed(12345)           # global state never leaks from case to case
        try:
            with np.errstate(all='ignore'):
                sub['f'](case, ctx)
        except Finding as e:
            if e.fid in known:
                res['known'][e.fid] = e.text
                ctx.tag('known:' + e.fid)
            else:
                failing[key] = (case, 'finding %s is not listed: %s' % (e.fid, e.text))
                if state['stop'] is None:
                    state['stop'] = time.time() + SHRINK
                raise Violation(failing[key][1])
        except Exception as e:
            if type(e).__module__.startswith('hypothesis'):
                raise
            if _no_such_name(e):
                classes['a private name of the package is gone'] = classes.get('a private name of the package is gone', 0) + 1
                return
            failing[key] = (case, _describe(e))
            if state['stop'] is None:
                state['stop'] = time.time() + SHRINK
            raise
        for k, v in ctx.classes.items():
            classes[k] = classes.get(k, 0) + v
        if ctx.nontrivial:
            h = hashlib.sha256(key.encode()).hexdigest()
            if h not in nontriv:
                nontriv.add(h)
                if len(samples) < 2 or (len(samples) < 4 and len(nontriv) % 37 == 0):
                    samples.append(_short(json.loads(key)))

    cases = sub['cases'](tier) if callable(sub['cases']) else sub['cases']
    try:
        for case in cases:
            one(case)
        if sub['strategy'] is not None:
            import hypothesis
            from hypothesis import given, settings, HealthCheck, Phase
            n = sub['quick'] if tier == 'quick' else sub['thorough']
            strat = sub['strategy']() if callable(sub['strategy']) else sub['strategy']

            @hypothesis.seed(sub_seed(seed, prop.pid, sub['name']))
            @settings(max_examples=n, database=None, deadline=None, print_blob=False,
                      suppress_health_check=list(HealthCheck),
                      phases=(Phase.generate, Phase.target, Phase.shrink))
            @given(strat)
            def drive(case):
                one(case)
            drive()
    except BaseException as e:
        if not failing:
            raise
        # the shrunk one: the shortest failing case
        key = min(failing, key=lambda k: (len(k), k))
        res['failed'] = dict(case=json.loads(key), message=failing[key][1])
    res.update(nontrivial=len(nontriv), samples=samples, classes=classes,
               wall_s=round(time.time() - t0, 2),
               exhaustive=bool(sub['exhaustive']) and not res['truncated'])
    return res


def child(prop, sub, tier, seed, known, scratch, idx):
    out = os.path.join(scratch, 'sub%d.json' % idx)
    cur = os.path.join(scratch, 'sub%d.cur' % idx)
    log = os.open(os.path.join(scratch, 'sub%d.log' % idx), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(log, 1)
    os.dup2(log, 2)
    os.setpgid(0, 0)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))     # code that runs away must not take the machine with it
    work = os.path.join(scratch, 'work%d' % idx)
    os.mkdir(work)
    os.chdir(work)
    code = 0
    try:
        r = run_sub(prop, sub, tier, seed, known, cur)
    except BaseException:
        r = dict(sub=sub['name'], harness_error=traceback.format_exc())
        code = 3
    with open(out + '.tmp', 'w') as f:
        json.dump(r, f, default=_js)
    os.rename(out + '.tmp', out)
    os._exit(code)


def run_all(prop, subs, tier, seed, known, scratch, jobs=8, first=False):
    cap = 150 if first else 600 if tier == 'quick' else 6 * 3600
    pending, live, results = list(enumerate(subs)), {}, {}
    while pending or live:
        while pending and len(live) < jobs:
            i, s = pending.pop(0)
            pid = os.fork()
            if pid == 0:
                try:
                    child(prop, s, tier, seed, known, scratch, i)
                finally:
                    os._exit(4)
            live[pid] = (i, s, time.time())
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            for p, (i, s, t) in list(live.items()):
                if now - t > cap:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        os.kill(p, signal.SIGKILL)
                    live[p] = (i, s, now + 1e9)
            time.sleep(0.02)
            continue
        if pid not in live:
            continue
        i, s, t = live.pop(pid)
        try:
            os.killpg(pid, signal.SIGKILL)      # workers the code under test left behind
        except OSError:
            pass
        out = os.path.join(scratch, 'sub%d.json' % i)
        if os.path.exists(out):
            with open(out) as f:
                results[i] = json.load(f)
        else:
            try:
                with open(os.path.join(scratch, 'sub%d.cur' % i)) as f:
                    cur = json.load(f)
            except (OSError, ValueError):
                cur = None
            sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
            if t > time.time() + 1e8:
                msg = 'did not finish within %d s' % cap
            else:
                msg = 'the process died (signal %s, status %s) while running this case' % (sig, st)
            try:
                with open(os.path.join(scratch, 'sub%d.log' % i)) as f:
                    msg += '\n' + f.read()[-1500:]
            except OSError:
                pass
            if cur is None:
                results[i] = dict(sub=s['name'], harness_error=msg)
            else:
                results[i] = dict(sub=s['name'], evaluations=1, nontrivial=0, samples=[], classes={},
                                  known={}, truncated=False, wall_s=0, exhaustive=False,
                                  failed=dict(case=cur, message=msg))
        if first and results[i].get('failed'):
            for p in live:
                for kill in (os.killpg, os.kill):
                    try:
                        kill(p, signal.SIGKILL)
                    except OSError:
                        pass
            return [results[i]]
    return [results[i] for i in range(len(subs))]


def load_known(pid):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except OSError:
        return {}
    return {e['id']: e for e in data.get('findings', []) if e['property'] == pid}


def report_violation(pid, sub, fail):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%s.json' % (pid, sub))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, sub=sub, case=fail['case'], message=fail['message']), f,
                  indent=1, default=_js)
    print('  %s/%s fails on %s' % (pid, sub, canon(fail['case'])[:600]))
    print('  ' + str(fail['message'])[:1500].replace('\n', '\n  '))
    print('VIOLATION property=%s replay=%s' % (pid, path))


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--sub', default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--first', action='store_true', help='stop at the first violation, do not shrink')
    a = ap.parse_args(argv)
    if a.first:
        global SHRINK
        SHRINK = 0
    pid = a.property
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='vh-%s-' % pid)
    os.environ['NUMBA_CACHE_DIR'] = os.path.join(scratch, 'numba')
    os.environ['VH_SCRATCH'] = scratch
    try:
        return _main(a, pid, seed, t0, scratch)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, pid, seed, t0, scratch):
    sys.path.append(VT)
    from . import build
    try:
        build.load(scratch)
    except Exception as e:
        # the tree under test cannot be loaded at all: no property of it holds
        report_violation(pid, 'import', dict(case=None, message=_describe(e)))
        return 1
    import warnings
    warnings.simplefilter('ignore')
    mods = [m for m in os.listdir(os.path.join(VERIF, 'checks')) if m.startswith(pid.lower() + '_')]
    assert len(mods) == 1, mods
    prop = importlib.import_module('checks.' + mods[0][:-3]).P
    assert prop.pid == pid
    knownmap = load_known(pid)
    subs = [s for s in prop.subs if a.sub in (None, s['name'])]
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        s = dict([s for s in prop.subs if s['name'] == rep['sub']][0])
        s.update(strategy=None, cases=[rep['case']])
        subs = [s]
    if prop.warm and not a.replay:
        prop.warm()
    results = run_all(prop, subs, a.tier, seed, list(knownmap), scratch, a.jobs, a.first)
    errs = [r for r in results if 'harness_error' in r]
    if errs:
        for r in errs:
            print('HARNESS ERROR in %s/%s\n%s' % (pid, r['sub'], r['harness_error']))
    ok = [r for r in results if 'harness_error' not in r]
    viol = [r for r in ok if r['failed']]
    seen = {}
    for r in ok:
        seen.update(r['known'])
    for fid, text in sorted(seen.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, fid, knownmap[fid]['what']))
    for r in viol:
        report_violation(pid, r['sub'], r['failed'])
    samples = []
    for r in ok:
        samples += [dict(sub=r['sub'], case=c) for c in r['samples']]
    if not (a.sub or a.replay):
        ev = dict(property=pid, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed,
                  level='exploration',
                  coverage=dict(evaluations=sum(r['evaluations'] for r in ok),
                                distinct_nontrivial=sum(r['nontrivial'] for r in ok),
                                rule=prop.rule, samples=samples,
                                sub_checks=[{k: r[k] for k in ('sub', 'evaluations', 'nontrivial', 'classes',
                                                               'truncated', 'exhaustive', 'wall_s')}
                                            for r in ok]),
                  assumptions=prop.assumptions, wall_s=round(time.time() - t0, 2),
                  violations=len(viol), known_findings=sorted(seen))
        tmp = os.path.join(VERIF, 'evidence', pid + '.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=_js)
        os.rename(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))
    for r in ok:
        print('%s/%s: %d cases, %d distinct non-trivial, %.1fs%s' %
              (pid, r['sub'], r['evaluations'], r['nontrivial'], r['wall_s'],
               ' (truncated by time budget)' if r['truncated'] else ''))
    if viol:
        return 1
    if errs:
        return 3
    print('%s: held on everything explored (%.1fs)' % (pid, time.time() - t0))
    return 0
