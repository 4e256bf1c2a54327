"""Property-based test runner.

A check file defines sub-properties: a Hypothesis strategy producing plain JSON
data, and a test function that builds the real objects from that data, runs the
real code of /repo, and compares with an oracle (raising Violation).  The test
function returns a falsy value for a trivial case, otherwise True or a label.

main() runs the sub-properties in several worker processes (different seeds and
hash seeds), each within a time budget; failures are shrunk by Hypothesis, the
smallest failing data is written as a replay file and confirmed in a fresh
process.  Exit status: 0 held, 1 violated, 2 the check itself is broken.
"""
import os, sys, json, time, hashlib, subprocess, traceback, signal, tempfile, shutil, argparse, faulthandler
from . import env

VERIF = env.VERIF
SCRIPT = os.path.abspath(sys.argv[0])      # before anything changes directory
START = os.getcwd()


class Violation(Exception):
    """The property does not hold for this case.  key identifies known findings."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """The generated data is outside the property's domain."""


class CaseTimeout(BaseException):
    pass


class _Abort(KeyboardInterrupt):
    pass


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Sub:
    def __init__(self, name, strategy, fn, weight=1.0, examples=(), case_timeout=40, exhaustive=None, dynamic=False):
        """exhaustive: a list of cases run completely (split over the workers) before
        generation starts; strategy may be None then."""
        self.name, self.strategy, self.fn = name, strategy, fn
        self.weight, self.examples, self.case_timeout = weight, list(examples), case_timeout
        self.strict = False         # True: cases take milliseconds: one that computes for case_timeout seconds never ends
        self.exhaustive, self.dynamic = exhaustive, dynamic     # dynamic: whichever worker is free takes the next fixed case


def jhash(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


def run_case(sub, case):
    """-> (label or None); raises Violation or Skip.  Any exception while valid data is
    processed counts as a violation: the code under test crashed or returned
    something of the wrong shape."""
    def alarm(*a):
        raise CaseTimeout()
    cpu = time.process_time()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, sub.case_timeout, 5)       # (again: something may have swallowed it)
    try:
        with env.quiet():
            r = sub.fn(case)
        return r
    except CaseTimeout as e:
        if sub.strict and time.process_time() - cpu > 0.6 * sub.case_timeout:
            raise Violation('no answer after %d s of computing' % (time.process_time() - cpu)) from e
        raise
    except (Violation, Skip, MemoryError):
        raise
    except KeyboardInterrupt:
        raise
    except RecursionError as e:
        if sub.strict:
            raise Violation('endless recursion') from e
        raise CaseTimeout() from e
    except BaseException as e:      # also SystemExit from quit()
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(env.REPO)] or tb[-1:]
        w = where[-1]
        raise Violation('%s: %s (at %s:%s in %s)' % (type(e).__name__, str(e)[:300], w.filename, w.lineno, w.name)) from e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid]


class Worker:
    def __init__(self, pid, subs, shard, nshards, seed, budget, outfile):
        self.pid, self.subs, self.shard, self.nshards = pid, subs, shard, nshards
        self.seed, self.budget, self.outfile = seed, budget, outfile
        self.known = {k['key'] for k in load_known(pid)}
        self.res = {s.name: dict(evaluations=0, skipped=0, timeouts=0, nontrivial=[], trivial=0,
                                 labels={}, samples=[], failure=None, known={}, late=None) for s in subs}
        self.seen = {s.name: set() for s in subs}
        self.saved = time.time()
        faulthandler.register(signal.SIGUSR1)

    def one(self, sub, case):
        """run and count one case; returns Violation or None"""
        r = self.res[sub.name]
        self.beat(sub, case)
        try:
            lab = run_case(sub, case)
        except Skip:
            r['skipped'] += 1
            return None
        except CaseTimeout:
            r['timeouts'] += 1
            r['late'] = case
            return None
        except Violation as v:
            r['evaluations'] += 1
            if v.key is not None and v.key in self.known:
                r['known'][v.key] = str(v)[:500]
                return None
            return v
        r['evaluations'] += 1
        if lab:
            h = jhash(case)
            if h not in self.seen[sub.name]:
                self.seen[sub.name].add(h)
                r['nontrivial'].append(h)
                if len(r['samples']) < 2 and len(json.dumps(case)) < 2500:
                    r['samples'].append(case)
            labs = lab if isinstance(lab, (list, tuple, set)) else [lab]
            for l in labs:
                if isinstance(l, str):
                    r['labels'][l] = r['labels'].get(l, 0) + 1
        else:
            r['trivial'] += 1
        return None

    def fail(self, sub, case, v):
        r = self.res[sub.name]
        if r['failure'] is None or len(json.dumps(case)) < len(json.dumps(r['failure']['case'])):
            r['failure'] = dict(case=case, message=str(v)[:2000], key=v.key)
        self.save()

    def beat(self, sub, case):
        """for the watch in wait_all(): what is run now, and how long it may take"""
        now = time.time()
        with open(self.outfile + '.now', 'w') as f:
            json.dump(dict(until=now + sub.case_timeout + 60, sub=sub.name, case=case), f)
        if now > self.saved + 20:
            self.save()

    def save(self, done=False):
        self.saved = time.time()
        tmp = self.outfile + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(dict(done=done, res=self.res), f)
        os.replace(tmp, self.outfile)

    def run(self):
        import hypothesis as hy
        from hypothesis import strategies as st
        t0 = time.time()
        # fixed cases: previously failing or exhaustively enumerated
        for sub in self.subs:
            fixed = list(sub.examples) + list(sub.exhaustive() if callable(sub.exhaustive) else sub.exhaustive or [])
            for i, case in enumerate(fixed):
                if not sub.dynamic and i % self.nshards != self.shard:
                    continue
                if sub.dynamic:
                    try:
                        os.close(os.open(os.path.join(START, 'claim_%s_%d' % (sub.name, i)), os.O_CREAT | os.O_EXCL))
                    except FileExistsError:
                        continue
                v = self.one(sub, case)
                if v:
                    self.fail(sub, case, v)
                    return self.save(True)
                self.save()
        gen = [s for s in self.subs if s.strategy is not None]
        wsum = sum(s.weight for s in gen) or 1
        left = max(0.3 * self.budget if any(s.dynamic for s in self.subs) else 0.0, self.budget - (time.time() - t0))
        # different workers start with different sub-properties
        k = self.shard % len(gen) if gen else 0
        for sub in gen[k:] + gen[:k]:
            end = time.time() + left * sub.weight / wsum
            batch = 0
            while time.time() < end and self.res[sub.name]['failure'] is None:
                self.batch(hy, sub, batch, end)
                batch += 1
                self.save()
            if self.res[sub.name]['failure'] is not None:
                break
        self.save(True)

    def batch(self, hy, sub, batch, end):
        shrink_end = [None]
        calls = [0]

        def body(case):
            calls[0] += 1
            if calls[0] == 1 and (batch or self.shard):
                return          # Hypothesis starts with the simplest case: once is enough
            failed = self.res[sub.name]['failure'] is not None
            now = time.time()
            if not failed and now > end:
                return
            if shrink_end[0] and now > shrink_end[0]:
                raise _Abort()
            v = self.one(sub, case)
            if v:
                if shrink_end[0] is None:
                    shrink_end[0] = time.time() + 45
                self.fail(sub, case, v)
                raise Violation('fails')

        n = (20, 50, 150, 400)[min(batch, 3)]
        f = hy.given(sub.strategy)(body)
        f = hy.settings(max_examples=n, deadline=None, database=None, report_multiple_bugs=False,
                        print_blob=False, derandomize=False, verbosity=hy.Verbosity.quiet,
                        suppress_health_check=list(hy.HealthCheck),
                        phases=[hy.Phase.generate, hy.Phase.shrink])(f)
        f = hy.seed((self.seed * 1000003 + self.shard * 7919 + batch) * 31 + len(sub.name))(f)
        try:
            with env.quiet():
                f()
        except (_Abort, Violation):
            pass
        except hy.errors.HypothesisException as e:
            if self.res[sub.name]['failure'] is None:
                # e.g. Unsatisfiable: nothing generated
                if not isinstance(e, hy.errors.Unsatisfiable):
                    raise
        except BaseExceptionGroup:
            pass


def main(pid, subs, rule, quick=40, thorough=600, workers=8, level='exploration', assumptions=(), extra=None, strict=False):
    for s in subs:
        s.strict = strict
    ap = argparse.ArgumentParser()
    ap.add_argument('--worker', nargs=2)
    ap.add_argument('--replay')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--only')
    a = ap.parse_args()
    subs = [s for s in subs if not a.only or s.name in a.only.split(',')]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if a.replay:
        return replay(pid, subs, a.replay)
    budget = a.budget or (thorough if tier == 'thorough' else quick)
    nw = a.workers or workers
    if a.worker:
        env.setup()
        Worker(pid, subs, int(a.worker[0]), nw, seed, budget, a.worker[1]).run()
        return
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='ikbtv_main_')
    procs = []
    try:
        for i in range(nw):
            out = os.path.join(tmp, 'w%d.json' % i)
            cmd = [sys.executable, SCRIPT, '--worker', str(i), out, '--budget', str(budget), '--workers', str(nw)]
            if a.only:
                cmd += ['--only', a.only]
            log = open(os.path.join(tmp, 'w%d.log' % i), 'w')
            procs.append((subprocess.Popen(cmd, env=child_env(i), stdout=log, stderr=log, cwd=tmp, start_new_session=True), out, log))
        broken = wait_all(procs, time.time() + budget * 1.5 + 420, tmp)
        results = [json.load(open(o))['res'] for _, o, _ in procs if os.path.exists(o)]
        code = report(pid, subs, results, rule, tier, seed, level, t0, budget, assumptions, broken, extra)
    finally:
        for p, _, log in procs:
            if p.poll() is None:
                kill(p)
            log.close()
        shutil.rmtree(tmp, ignore_errors=True)
        sweep()
    sys.exit(code)


def child_env(i):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=str(i), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
             PYTHONPATH=VERIF)
    return e


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def sweep():
    """scratch directories of killed workers (their atexit did not run)"""
    import glob
    for d in glob.glob(os.path.join(tempfile.gettempdir(), 'ikbtv_*')):
        pidf = os.path.join(d, '.pid')
        try:
            pid = int(open(pidf).read())
        except (OSError, ValueError):
            continue
        if not os.path.exists('/proc/%d' % pid):
            shutil.rmtree(d, ignore_errors=True)


def overdue(o, now):
    try:
        return json.load(open(o + '.now'))['until'] < now
    except (OSError, ValueError):
        return False


def wait_all(procs, deadline, tmp):
    """-> list of error texts of workers that broke"""
    broken, first_fail, stuck, tick = [], None, {}, 0
    while any(p.poll() is None for p, _, _ in procs):
        time.sleep(0.2)
        now = time.time()
        if first_fail is None:
            for p, o, _ in procs:
                if os.path.exists(o):
                    try:
                        d = json.load(open(o))
                    except ValueError:
                        continue
                    if any(r['failure'] for r in d['res'].values()):
                        first_fail = now
        tick += 1
        for p, o, _ in procs if tick % 25 == 0 else ():
            if p.poll() is None and overdue(o, now):
                os.kill(p.pid, signal.SIGUSR1)
                time.sleep(1)
                if overdue(o, time.time()):
                    kill(p)
                    stuck[o] = json.load(open(o + '.now'))
        if first_fail and now > first_fail + 60 or now > deadline:
            for p, _, _ in procs:
                if p.poll() is None:
                    kill(p)
            if not first_fail:
                broken.append('a worker did not finish in time')
            break
    if len(stuck) == len(procs):
        broken.append('no worker finished in time')
    for i, (p, o, _) in enumerate(procs):
        if o in stuck and len(stuck) < len(procs):
            # no signal gets through (one long operation outside Python): like any other case that takes too long
            print('note: given up a case of %s: %s\n%s' % (stuck[o]['sub'], json.dumps(stuck[o]['case'])[:1500],
                                                            open(os.path.join(tmp, 'w%d.log' % i)).read()[-1500:]))
            if os.path.exists(o):
                d = json.load(open(o))
                d['res'][stuck[o]['sub']]['timeouts'] += 1
                d['res'][stuck[o]['sub']]['late'] = stuck[o]['case']
                json.dump(d, open(o, 'w'))
            continue
        if p.returncode not in (0, None, -9):
            broken.append('worker %d exit %s\n%s' % (i, p.returncode, open(os.path.join(tmp, 'w%d.log' % i)).read()[-3000:]))
        elif not os.path.exists(o) and not first_fail:
            broken.append('worker %d left no result' % i)
    return broken


def report(pid, subs, results, rule, tier, seed, level, t0, budget, assumptions, broken, extra):
    known = {k['key']: k for k in load_known(pid)}
    per, fails, seen_known = {}, [], {}
    ev = nt = 0
    samples = []
    for s in subs:
        rs = [r[s.name] for r in results]
        h = set()
        labels = {}
        for r in rs:
            h.update(r['nontrivial'])
            for l, n in r['labels'].items():
                labels[l] = labels.get(l, 0) + n
            if r['failure']:
                fails.append((s, r['failure']))
            seen_known.update(r['known'])
        per[s.name] = dict(evaluations=sum(r['evaluations'] for r in rs), distinct_nontrivial=len(h),
                           trivial=sum(r['trivial'] for r in rs), out_of_domain=sum(r['skipped'] for r in rs),
                           timeouts=sum(r['timeouts'] for r in rs), classes=dict(sorted(labels.items())))
        ev += per[s.name]['evaluations']
        nt += len(h)
        if per[s.name]['evaluations'] == 0 and per[s.name]['timeouts'] >= 5:
            late = min((r['late'] for r in rs if r['late'] is not None), key=lambda c: len(json.dumps(c)))
            fails.append((s, dict(case=late, message='none of %d cases came to an end (%d s each)' %
                                  (per[s.name]['timeouts'], s.case_timeout), key=None)))
        ss = [x for r in rs for x in r['samples']]
        samples += [dict(sub=s.name, case=x) for x in ss[:3]]
    violations = []
    best = {}
    for s, f in fails:
        if s.name not in best or len(json.dumps(f['case'])) < len(json.dumps(best[s.name]['case'])):
            best[s.name] = f
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for name, f in best.items():
        path = os.path.join(VERIF, 'replays', '%s-%s-%s.json' % (pid, name, jhash(f['case'])[:8]))
        with open(path, 'w') as fp:
            json.dump(dict(property=pid, sub=name, case=f['case'], message=f['message'], key=f.get('key')), fp, indent=1)
        violations.append(dict(sub=name, message=f['message'], replay=path))
    evd = dict(property=pid, tier=tier, seed=seed, level=level,
               coverage=dict(evaluations=ev, distinct_nontrivial=nt, rule=' '.join(rule.split()), samples=samples[:12],
                             per_subproperty=per, budget_s_per_worker=budget, workers=len(results)),
               wall_s=round(time.time() - t0, 1), assumptions=list(assumptions),
               violations=len(violations))
    if extra:
        evd['coverage'].update(extra)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fp:
        json.dump(evd, fp, indent=1)
    for n, p in per.items():
        print('  %-28s %7d cases %7d distinct non-trivial  %s' % (n, p['evaluations'], p['distinct_nontrivial'],
              ' '.join('%s=%s' % (k, p[k]) for k in ('trivial', 'out_of_domain', 'timeouts') if p[k])))
    for k, msg in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]['what'] if k in known else msg))
    for k in known:
        if k not in seen_known:
            print('note: known finding %s was not reproduced in this run' % k)
    if violations:
        for v in violations:
            print('%s: %s' % (v['sub'], v['message']))
            print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
        return 1
    if broken:
        for b in broken:
            print('CHECK BROKEN:', b)
        return 2
    print('%s held: %d cases, %d distinct non-trivial, %.0f s' % (pid, ev, nt, time.time() - t0))
    return 0


def replay(pid, subs, path):
    d = json.load(open(os.path.join(START, path)))
    sub = [s for s in subs if s.name == d['sub']][0]
    env.setup()
    try:
        lab = run_case(sub, d['case'])
    except Violation as v:
        print('%s: %s' % (sub.name, v))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    except CaseTimeout:
        print('%s: no answer in %d s' % (sub.name, sub.case_timeout))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    except Skip:
        print('case is out of domain')
        sys.exit(2)
    print('case holds (%s)' % (lab,))
    sys.exit(0)
