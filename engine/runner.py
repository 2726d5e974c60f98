"""Runs the tasks of one check: symbolic exploration in worker processes, replay of every counterexample on the
untouched code in a fresh interpreter, validation of explored paths against concrete runs, evidence."""
import importlib.util, json, os, signal, subprocess, sys, time, traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PY = sys.executable


def hard(failed):
    return [x for x in failed if not x.startswith('[listed] ')]


class Task:
    def __init__(self, fn, name=None, cc=False, rng=False, seconds=None, threads=None, max_decisions=20000, env=None, expect=True, elim=False, maxdeg=None, softsqrt=False, cuts=True, sched=False, **params):
        self.fn, self.cc, self.rng, self.seconds, self.params = fn, cc, rng, seconds, params
        self.threads = threads
        self.sched = sched       # the schedule is part of the inputs: replays run the threads inline as well (implies rng)
        self.rng = self.rng or sched
        self.max_decisions = max_decisions
        self.expect = expect
        self.elim, self.maxdeg, self.softsqrt, self.cuts = elim, maxdeg, softsqrt, cuts
        self.env = env or {}
        self.name = name or (fn + ('[cc]' if cc else '') + ('(' + ','.join('%s=%s' % (k, params[k]) for k in sorted(params)) + ')' if params else ''))


def lib_kind(t):
    """library of the core that replays a task"""
    return 'sch' if t.sched else 'rnd' if t.rng else 'plain'


def load_check(pid):
    p = os.path.join(ROOT, 'checks', pid + '.py')
    sys.path.insert(0, os.path.join(ROOT, 'checks'))
    spec = importlib.util.spec_from_file_location('check_' + pid, p)
    m = importlib.util.module_from_spec(spec)
    sys.modules['check_' + pid] = m
    spec.loader.exec_module(m)
    return m


def known_findings():
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        return json.load(open(p))
    return {'findings': [], 'fixed': []}


# ------------------------------------------------------------------ symbolic worker
def run_symbolic(pid, task, seconds, out, libs, forced=None, journal_path=None):
    """executes in a child process; writes its result to `out`"""
    import core, host
    from core import Engine, PathEnd, Budget, Unsupported, z3
    deadline = time.time() + seconds
    t0 = time.time()
    host.import_repo()
    os.environ['SYM_THREADS'] = str(task.threads or 4)
    mod = load_check(pid)
    if hasattr(mod, 'setup'):
        mod.setup()
    if task.cc:
        host.set_core_library(libs['sym'])
        host.install_callbacks(libs['sym'], host.HOLDER)
        host.patch_core_results()
    host.patch_modules(host.HOLDER, True)
    known = {f['id'] for f in known_findings()['findings'] if f['property'] == pid}
    fn = getattr(mod, task.fn)
    eng = Engine(max_decisions=task.max_decisions, timeout_ms=int(getattr(mod, 'SOLVER_MS', 8000)), deadline=deadline)
    eng.elim, eng.maxdeg, eng.softsqrt, eng.cuts = task.elim, task.maxdeg, task.softsqrt, task.cuts
    eng.allow_box = task.cc
    res = dict(task=task.name, violations=[], known=[], validation=[], labels={}, errors=[], unreproduced=[], complete=False, samples=[],
               unsupported=0)
    seen = set()
    state = dict(last_flush=0.0)

    def flush():
        res['stats'] = dict(eng.stats)
        res['incomplete'] = sorted(set(eng.incomplete))[:20]
        res['wall'] = time.time() - t0
        tmp = out + '.tmp'
        json.dump(res, open(tmp, 'w'))
        os.replace(tmp, out)

    if journal_path:
        jf = open(journal_path, 'w')

        def journal(entry):
            k = entry[0]
            if k == 'assume':
                jf.write('a 1\n')
            elif k == 'choose':
                jf.write('c %d\n' % entry[1])
            elif k is None:
                jf.write('d %d\n' % entry[1])
            else:
                jf.write('i %d %d\n' % (k[1], entry[1]))
            jf.flush()
        eng.journal = journal

        def new_journal():
            jf.seek(0)
            jf.truncate()
            for e in eng.trace:
                journal(e)
    else:
        def new_journal(): pass

    def candidates(m, robust=None, names=None, raw=False, only=False):
        """concrete assignments of the current path, the most replayable first. Values are rounded to a grid of 2**-30 unless raw: what
        happens only in a narrower gap is a matter of the rounding of concrete floating-point constants, not of the code"""
        e = eng
        if names is None:
            names = list(e.inputs)
        e.solver.push()
        lvl = 0
        try:
            e.solver.set('timeout', 4000)
            cons = [z3.Not(core.f_z3(e, robust, eps=Fraction(1, 100)))] if robust is not None else []
            ints, grid = [], []
            for (nm, v, kind, lo, hi) in names:
                if kind == 'real' and not nm.startswith('rnd'):
                    ints.append(e.z3var(v) == z3.ToReal(z3.Int('k!%d' % v)))
                    grid.append(e.z3var(v) * 1024 == z3.ToReal(z3.Int('k!%d' % v)))
            seen_vals = []
            for cs in ([cons + ints, cons + grid, cons] if robust is not None else []) + ([[]] if only else [ints, []]):
                if cs == [] and m is not None:
                    mm = m
                else:
                    e.solver.push()
                    e.solver.add(*cs)
                    if robust is not None:
                        e.solver.add(z3.Not(core.f_z3(e, robust)))
                    r = e.solver.check()
                    mm = e.solver.model() if r == z3.sat else None
                    e.solver.pop()
                if mm is None:
                    continue
                vals = {}
                for (nm, v, kind, lo, hi) in names:
                    x = mm.eval(e.z3var(v), model_completion=True)
                    if z3.is_algebraic_value(x):
                        x = x.approx(30)
                    try:
                        q = x.as_fraction()
                        if not raw and (q.denominator & (q.denominator - 1) or q.denominator > 2 ** 30):
                            q = Fraction(round(q * 2 ** 30), 2 ** 30)
                        vals[nm] = str(q)
                    except Exception:
                        vals[nm] = '0'
                if vals not in seen_vals:
                    seen_vals.append(vals)
                    yield dict(values=vals, nondets=list(e.nondets))
        finally:
            e.solver.set('timeout', e.timeout_ms)
            e.solver.pop()

    def replay(cands, msg, timeout=20, finding=None):
        """-> (candidate, replay result) for the first candidate which fails on the untouched code"""
        last = None
        for c in cands:
            r = run_replay(pid, task, [c], libs, timeout=timeout)
            last = (c, r)
            if r['status'] in ('crash', 'timeout'):
                return c, r, True
            x = r['runs'][0]
            if x.get('assumption_failed'):
                continue
            if (x['failed'] if finding else hard(x['failed'])) or x.get('exception'):
                return c, r, True
        return (last[0], last[1], False) if last else (None, None, False)

    def report(msg, c, r, finding=None):
        d = dict(msg=msg, candidate=c, result=r)
        if finding is not None and finding in known:
            d['finding'] = finding
            res['known'].append(d)
        else:
            res['violations'].append(d)
        flush()

    def on_cex(ctx, f, m, msg, finding=None):
        key = (msg, finding)
        if key in seen:
            return
        n = sum(1 for k in res['unreproduced'] if k['msg'] == msg)
        if n >= 3:
            return
        c, r, ok = replay(list(candidates(m, f)), msg, finding=finding)
        if ok:
            seen.add(key)
            report(msg, c, r, finding)
        else:
            res['unreproduced'].append(dict(msg=msg, candidate=c, result=r))

    nvalid = int(getattr(mod, 'VALIDATE', 6))

    def path_values():
        m = None
        if any(len(d) == 2 and d[0] in core.FUNCS for d in eng.aux_defs.values()):
            if not eng.cuts:
                return None
            r, m = eng.refined_check(limit=4)
            if r != z3.sat or eng.function_cuts(m):
                return None
        for c in candidates(m, None, raw=True, only=m is not None):
            return c
        return None

    if forced is not None:
        eng.forced = list(forced)

        def forced_end():
            r, m = eng.check()
            cs = list(candidates(m if r == z3.sat else None, None)) if r == z3.sat else []
            json.dump(cs, open(out, 'w'))
            os._exit(0)
        eng.on_forced_end = forced_end
        if not forced:
            json.dump([dict(values={}, nondets=[])], open(out, 'w'))
            return

    first = True
    try:
        while True:
            ctx = host.SymCtx(eng, on_cex, task.cc)
            ctx.known = known
            host.HOLDER.ctx = ctx
            new_journal()
            eng.stats['paths'] += 1
            ended = None
            try:
                fn(ctx, **task.params)
                ended = 'ok'
            except PathEnd:
                ended = 'assume'
            except Budget as b:
                ended = 'budget'
                eng.incomplete.append(str(b))
                if time.time() > deadline:
                    break
                # a path longer than the bound: does the real code terminate on it?
                eng.stats['budget'] += 1
                if eng.stats['budget'] <= 3:
                    c, r, ok = replay(list(candidates(None, None)), 'termination', timeout=30)
                    if ok:
                        report('the call does not return (bound on decisions exceeded and the real code %s)' % r['status'] if r['status'] in ('timeout', 'crash') else 'violation on a long path', c, r)
            except Unsupported as ex:
                ended = 'unsupported'
                res['unsupported'] += 1
                eng.incomplete.append('unsupported: %s' % str(ex)[:200])
                if res['unsupported'] <= 8:
                    c, r, ok = replay(list(candidates(None, None))[:1], 'unsupported')
                    if ok:
                        report('violation (found by replaying a path the encoding does not support)', c, r)
            except Exception as ex:
                ended = 'exception'
                msg = 'exception %s: %s' % (type(ex).__name__, str(ex)[:200])
                key = ('exc', type(ex).__name__, str(ex)[:80])
                if key not in seen:
                    c, r, ok = replay(list(candidates(None, None)), msg)
                    if ok:
                        seen.add(key)
                        report(msg, c, r)
                    else:
                        res['unsupported'] += 1
                        eng.incomplete.append('unreproduced ' + msg)
                        if len(res['errors']) < 5:
                            res['errors'].append(msg + '\n' + traceback.format_exc()[-1500:])
            if ended == 'ok':
                for l in ctx.labels:
                    res['labels'][l] = res['labels'].get(l, 0) + 1
                k = eng.stats['paths']
                if len(res['validation']) < nvalid and (k <= 3 or (k & (k - 1)) == 0):
                    c = path_values()
                    if c is not None:
                        c['obs'] = None
                        if ctx.observed and not eng.path_abstract:
                            c['obs'] = [(n_, obs_value(v, c, eng)) for n_, v in ctx.observed]
                        res['validation'].append(c)
            if time.time() - state['last_flush'] > 1:
                state['last_flush'] = time.time()
                flush()
            if time.time() > deadline:
                eng.incomplete.append('deadline')
                break
            if len(res['violations']) >= 3:
                eng.incomplete.append('stopped after violations')
                break
            if not eng.backtrack():
                res['complete'] = not eng.incomplete
                break
    finally:
        flush()
    if res['validation']:
        r = run_replay(pid, task, res['validation'], libs, timeout=120)
        mism = []
        nok = 0
        if r['status'] == 'ok':
            for c, x in zip(res['validation'], r['runs']):
                if x.get('assumption_failed'):
                    continue
                bad = x.get('exception') or hard(x['failed']) or (c['obs'] is not None and not obs_match(c['obs'], x['observed']))
                if bad:
                    mism.append(dict(values=c['values'], nondets=c['nondets'], sym=c['obs'], con=x))
                else:
                    nok += 1
        else:
            mism.append(dict(status=r['status'], detail=r.get('detail')))
        res['validated'] = nok
        res['mismatch'] = mism[:4]
        res['samples'] = [dict(inputs=c['values'], nondet=c['nondets'], observed=c['obs']) for c in res['validation'][:2]]
    res['validation'] = len(res['validation'])
    flush()


def obs_value(v, c, eng):
    """concrete value of an observed (symbolic) result under the path model c"""
    import core
    import host
    if isinstance(v, core.SymReal):
        t = 0.0
        for m, k in v.p.items():
            x = float(k)
            for var in m:
                y = _var_val(var, c, eng)
                if y is None:
                    return None
                x *= y
            t += x
        return t
    if isinstance(v, (list, tuple)):
        return [obs_value(e, c, eng) for e in v]
    if hasattr(v, 'tolist') and not isinstance(v, core.SymReal):
        return obs_value(v.tolist(), c, eng)
    if isinstance(v, (set, frozenset)):
        return sorted(obs_value(e, c, eng) for e in v)
    if isinstance(v, core.F):
        return None
    return host.plain(v)


def _var_val(var, c, eng):
    import math, core
    nm = eng.names[var]
    if nm is not None:
        return float(Fraction(c['values'][nm])) if nm in c['values'] else None
    d = eng.aux_defs.get(var)
    if d is None:
        return None
    a = obs_value(core.SymReal(d[1]), c, eng)
    if a is None:
        return None
    try:
        if d[0] == 'div':
            b = obs_value(core.SymReal(d[2]), c, eng)
            return None if not b else a / b
        if d[0] == 'sqrt':
            return math.sqrt(max(a, 0.0))
        return getattr(math, {'arctan': 'atan'}.get(d[0], d[0]))(a)
    except Exception:
        return None


def obs_match(a, b):
    if a is None:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(obs_match(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        return a == b or abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    return a == b


# ------------------------------------------------------------------ replay on the untouched code
def run_replay(pid, task, cands, libs, timeout=20):
    spec = dict(property=pid, task=task.name, fn=task.fn, params=task.params, cc=task.cc, rng=task.rng, sched=task.sched, threads=task.threads,
                candidates=[dict(values=c['values'], nondets=c['nondets']) for c in cands])
    if task.cc:
        spec['lib'] = libs[lib_kind(task)]
    import tempfile
    fd, path = tempfile.mkstemp(prefix='verif-replay-', suffix='.json')
    os.close(fd)
    try:
        json.dump(spec, open(path, 'w'))
        return run_replay_spec(path, timeout)
    finally:
        for x in (path, path + '.out'):
            if os.path.exists(x):
                os.unlink(x)


def run_replay_spec(path, timeout):
    env = dict(os.environ)
    env['OMP_NUM_THREADS'] = '1'
    outp = path + '.out'
    p = subprocess.Popen([PY, os.path.join(HERE, 'replay.py'), path, outp], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, start_new_session=True)
    try:
        _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return dict(status='timeout', detail='no answer in %d s' % timeout, runs=[])
    if p.returncode == 0 and os.path.exists(outp):
        return dict(status='ok', runs=json.load(open(outp)))
    if p.returncode is not None and p.returncode < 0:
        return dict(status='crash', detail='signal %d' % -p.returncode, runs=[])
    raise RuntimeError('replay failed (%s): %s' % (p.returncode, err.decode(errors='replace')[-2000:]))


# ------------------------------------------------------------------ parent
def die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
    except Exception:
        pass


def spawn(pid, task, seconds, libs, tmp, idx, forced=None):
    out = os.path.join(tmp, 'r%d%s.json' % (idx, 'f' if forced is not None else ''))
    jp = os.path.join(tmp, 'j%d' % idx) if (task.cc and forced is None) else None
    child = os.fork()
    if child == 0:
        code = 70
        try:
            os.setsid()
            die_with_parent()
            for k, v in task.env.items():
                os.environ[k] = v
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 0)
            log = os.open(os.path.join(tmp, 'log%d' % idx), os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            os.dup2(log, 1)
            os.dup2(log, 2)
            run_symbolic(pid, task, seconds, out, libs, forced, jp)
            code = 0
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(code)
    return child, out, jp


def read_journal(p):
    r = []
    for l in open(p):
        x = l.split()
        if len(x) < 2:
            continue
        if x[0] == 'i':
            if len(x) == 3:
                r.append((int(x[1]), bool(int(x[2]))))
        else:
            r.append((x[0], int(x[1])))
    return r


def run_check(pid, tier, only=None, verbose=False):
    t0 = time.time()
    import shutil, tempfile
    mod = load_check(pid)
    tasks = mod.tasks(tier)
    if only:
        tasks = [t for t in tasks if only in t.name]
    if os.environ.get('VERIF_ONLY'):        # development: one of the implementations
        tasks = [t for t in tasks if t.cc == (os.environ['VERIF_ONLY'] == 'cc')]
    total = float(os.environ.get('VERIF_SECONDS') or getattr(mod, 'SECONDS', {}).get(tier, 300 if tier == 'quick' else 3000))
    libs = {}
    build = {}
    if any(t.cc for t in tasks):
        import cc
        kinds = ['sym'] + sorted({lib_kind(t) for t in tasks if t.cc})
        for k in kinds:
            libs[k], build[k] = cc.build(k)
    tmp = tempfile.mkdtemp(prefix='verif-run-')
    njobs = int(os.environ.get('VERIF_JOBS') or os.cpu_count() or 4)
    end = time.time() + total
    default_s = float(getattr(mod, 'TASK_SECONDS', {}).get(tier, 60 if tier == 'quick' else 900))
    results = [None] * len(tasks)
    queue = sorted(range(len(tasks)), key=lambda i: -(tasks[i].seconds or default_s))
    running = {}
    crashed = []
    skipped = []
    try:
        while queue or running:
            while queue and len(running) < njobs:
                i = queue.pop(0)
                left = end - time.time()
                if left < 3:
                    skipped.append(i)
                    continue
                s = min(tasks[i].seconds or default_s, left)
                child, out, jp = spawn(pid, tasks[i], s, libs, tmp, i)
                running[child] = (i, out, jp, time.time() + s + 150, time.time())
            if not running:
                continue
            pid_, st = os.waitpid(-1, os.WNOHANG)
            if pid_ == 0:
                now = time.time()
                for c, (i, out, jp, kill_at, _) in list(running.items()):
                    if now > kill_at:
                        try:
                            os.killpg(c, signal.SIGKILL)
                        except OSError:
                            pass
                time.sleep(0.02)
                continue
            if pid_ not in running:
                continue
            i, out, jp, kill_at, st0 = running.pop(pid_)
            code = os.waitstatus_to_exitcode(st)
            r = json.load(open(out)) if os.path.exists(out) else dict(task=tasks[i].name, stats={}, violations=[], known=[], labels={}, unreproduced=[], errors=[], incomplete=[], complete=False)
            results[i] = r
            if code != 0:
                r['complete'] = False
                r.setdefault('incomplete', []).append('worker ended with %d' % code)
                log = open(os.path.join(tmp, 'log%d' % i), errors='replace').read()[-1500:]
                r['log'] = log
                if code == 70:
                    r.setdefault('errors', []).append('harness error:\n' + log)
                if jp and os.path.exists(jp) and code != 70:
                    crashed.append((i, jp, code))
            if verbose:
                s = r.get('stats', {})
                print('  %-60s paths=%s obl=%s/%s val=%s mism=%d known=%d cex=%d unrep=%d %s %.1fs' % (tasks[i].name[:60], s.get('paths'), s.get('discharged'), s.get('obligations'), r.get('validated'), len(r.get('mismatch', [])),
                      len(r['known']), len(r['violations']), len(r['unreproduced']), 'complete' if r['complete'] else r.get('incomplete'), time.time() - st0), flush=True)
                for e in r.get('errors', [])[:1]:
                    print('    ERR', ' | '.join(x.strip() for x in e.strip().splitlines()[-5:])[-400:])
                if code:
                    print('    LOG', r.get('log')[-600:])
                for e in r.get('mismatch', [])[:1]:
                    print('    MISMATCH', json.dumps(e)[:400])
                for e in r['unreproduced'][:2]:
                    print('    UNREPRODUCED', json.dumps(e)[:500])
                for e in (r['violations'] + r['known'])[:3]:
                    rr = e['result']
                    print('    CEX', e.get('finding') or '', e['msg'], '|', ' '.join('%s=%s' % kv for kv in e['candidate']['values'].items()), e['candidate']['nondets'], '|', rr['status'], json.dumps([[x['failed'], x['exception'], x['observed']] for x in rr['runs']])[:500])
        # workers that died inside the compiled core: rebuild the inputs of the last path and run it for real
        for i, jp, code in crashed:
            forced = read_journal(jp)
            child, out, _ = spawn(pid, tasks[i], 60, libs, tmp, i, forced=forced)
            tw = time.time()
            done = False
            while time.time() < tw + 90:
                p_, st = os.waitpid(child, os.WNOHANG)
                if p_:
                    done = True
                    break
                time.sleep(0.02)
            if not done:
                os.killpg(child, signal.SIGKILL)
                os.waitpid(child, 0)
            cands = json.load(open(out)) if os.path.exists(out) else []
            if isinstance(cands, dict):
                cands = []
            for c in cands:
                r = run_replay(pid, tasks[i], [c], libs, timeout=20)
                bad = r['status'] in ('crash', 'timeout') or any(hard(x['failed']) or x.get('exception') for x in r['runs'] if not x.get('assumption_failed'))
                if bad:
                    results[i]['violations'].append(dict(msg='the compiled core %s' % ('crashes' if r['status'] == 'crash' else 'does not return' if r['status'] == 'timeout' else 'fails'), candidate=c, result=r))
                    break
            if verbose:
                print('  crash of %s (code %d): %d candidates, violations now %d' % (tasks[i].name, code, len(cands), len(results[i]['violations'])))
                print(json.dumps(results[i]['violations'])[:800])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return finish(pid, tier, mod, tasks, results, skipped, libs, build, t0, verbose)


def finish(pid, tier, mod, tasks, results, skipped, libs, build, t0, verbose):
    tot = {}
    viol, known, unrep, errs, inc, labels, samples = [], [], [], [], [], {}, []
    nval = nmis = 0
    per = []
    vacuous = []
    for t, r in zip(tasks, results):
        if r is None:
            inc.append('%s: not started (time limit)' % t.name)
            continue
        for k, v in r.get('stats', {}).items():
            tot[k] = tot.get(k, 0) + v
        for v in r['violations']:
            viol.append((t, v))
        for v in r['known']:
            known.append((t, v))
        for v in r['unreproduced']:
            unrep.append((t, v))
        errs += ['%s: %s' % (t.name, e) for e in r.get('errors', [])]
        inc += ['%s: %s' % (t.name, e) for e in r.get('incomplete', [])]
        for k, v in r.get('labels', {}).items():
            labels[k] = labels.get(k, 0) + v
        nval += r.get('validated', 0) or 0
        nmis += len(r.get('mismatch', []) or [])
        samples += [dict(task=t.name, **s) for s in r.get('samples', [])]
        s = r.get('stats', {})
        if t.expect and r['complete'] and not s.get('obligations'):
            vacuous.append(t.name)
        per.append(dict(task=t.name, complete=r['complete'], paths=s.get('paths', 0), obligations=s.get('obligations', 0), discharged=s.get('discharged', 0), queries=s.get('queries', 0),
                        solver_s=round(s.get('solver_s', 0), 2), wall_s=round(r.get('wall', 0), 1)))
    missing = [l for l in getattr(mod, 'REACH', []) if not labels.get(l)]
    rdir = os.path.join(ROOT, 'replays')
    lines = []
    evv = []
    for n, (t, v) in enumerate(viol[:12]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (pid, n))
        json.dump(dict(property=pid, task=t.name, fn=t.fn, params=t.params, cc=t.cc, rng=t.rng, sched=t.sched, threads=t.threads, message=v['msg'], candidates=[v['candidate']], result=v['result']), open(path, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        if not verbose: print('%s: %s\n  inputs %s nondet %s\n  on the real code: %s' % (t.name, v['msg'], json.dumps(v['candidate']['values']), v['candidate']['nondets'], json.dumps(v['result'])[:1000]))
        evv.append(dict(task=t.name, message=v['msg'], replay=path))
    kf = {}
    for t, v in known:
        kf.setdefault(v['finding'], (t, v))
    desc = {f['id']: f for f in known_findings()['findings']}
    for k in sorted(kf):
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, desc[k]['what']))
    complete = not inc and not errs
    nobl = int(tot.get('obligations', 0))
    import core
    cov = dict(states=int(tot.get('paths', 0)), transitions=int(tot.get('decisions', 0)), traces_validated_against_impl=int(nval),
               samples=[json.dumps(s) for s in samples[:6]] or ['none'],
               bounds=getattr(mod, 'BOUNDS', {}).get(tier, getattr(mod, 'BOUNDS', {}).get('quick', '')) if isinstance(getattr(mod, 'BOUNDS', ''), dict) else mod.BOUNDS,
               functions_encoded=mod.FUNCTIONS, obligations=nobl, obligations_discharged=int(tot.get('discharged', 0)), queries=int(tot.get('queries', 0)), solver='z3 %s' % core.z3.get_version_string(),
               solver_seconds=round(tot.get('solver_s', 0), 2), unknown_answers=int(tot.get('unknown', 0)), complete_within_bounds=complete, incomplete=sorted(set(inc))[:30],
               tasks=per, reachability=labels, counterexamples_not_reproduced=len(unrep), path_validation_mismatches=nmis, core_build=build,
               known_findings_seen=sorted(kf))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level='model_checking', coverage=cov, wall_s=round(time.time() - t0, 1),
              assumptions=getattr(mod, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS, violations=evv)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d tasks, %d paths, %d obligations (%d discharged), %d queries, %.1f s solver, %d paths replayed on the real code, %.1f s; %s' % (
        pid, tier, len(tasks), tot.get('paths', 0), nobl, tot.get('discharged', 0), tot.get('queries', 0), tot.get('solver_s', 0), nval, time.time() - t0,
        'complete within the bounds' if complete else 'INCOMPLETE: ' + '; '.join(x[:160] for x in sorted(set(inc))[:5])))
    for e in errs[:2]:
        print('NOTE', e[:700])
    if nmis:
        print('NOTE %d explored paths behaved differently when replayed' % nmis)
    if lines:
        for l in lines:
            print(l)
        return 1
    if unrep:
        print('NOTE %d solver counterexamples did not reproduce on the real code (floating-point rounding or encoding); not reported: %s' % (len(unrep), sorted({v['msg'] for _, v in unrep})[:5]))
    harness = [e for e in errs if 'harness error' in e]
    if tot.get('paths', 0) == 0 or nobl == 0 or harness:
        print('ERROR: nothing was decided' if not harness else 'ERROR: harness failure')
        return 2
    if vacuous or missing:
        print('NOTE vacuous tasks %s, unreached labels %s' % (vacuous, missing))
        if missing and complete:
            return 2
    return 0


COMMON_ASSUMPTIONS = [
    'floating-point arithmetic is interpreted over the exact reals (rounding and overflow are outside the model; every counterexample is replayed in IEEE arithmetic before it is reported)',
    'random generators (random, numpy.random, std::uniform_*_distribution) return any value of their documented range',
]
