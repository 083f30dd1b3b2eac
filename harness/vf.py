"""Monitoring harness shared by all checks.

A check module (checks/cXX.py) declares *sections*.  A section is a workload
function executed for a number of *cases*; each case has its own PRNG (derived
only from VERIF_SEED, the section name and the case number) so that any single
case can be replayed.  Sections run in fresh Python processes (SPECULA fixes
precision and device at first import), in a scratch directory that is removed
afterwards, and report observations and oracle verdicts back as JSON.

Verdicts are three-valued:
  exit 0  every oracle evaluated and silent (known findings are listed)
  exit 1  an oracle fired:  VIOLATION property=<id> replay=<path>
  exit 2  inconclusive: harness failure, watchdog, or a section that observed nothing
"""
import argparse, hashlib, importlib.util, json, os, shutil, subprocess, sys, tempfile, time, traceback, zlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


class _Abort(Exception):
    """Raised to leave a case early (after a recorded violation or a skip)."""


class Section:
    def __init__(self, fn, name, quick, thorough, precisions, chunk, timeout, hashseeds):
        self.fn, self.name = fn, name
        self.n = {'quick': quick, 'thorough': thorough}
        self.precisions, self.chunk, self.timeout = precisions, chunk, timeout
        self.hashseeds = hashseeds


class CheckDef:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.sections = {}

    def section(self, name, quick=20, thorough=None, precisions=(0,), chunk=None, timeout=800,
                hashseeds=('0',)):
        def deco(fn):
            self.sections[name] = Section(fn, name, quick, thorough if thorough is not None else quick * 8,
                                          precisions, chunk, timeout, hashseeds)
            return fn
        return deco


def _js(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): _js(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_js(v) for v in o]
    if isinstance(o, np.ndarray):
        return _js(o.tolist()) if o.size <= 40 else f'array{o.shape}:{hashlib.md5(np.ascontiguousarray(o).tobytes()).hexdigest()[:12]}'
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return _js(o.item())
    if isinstance(o, complex):
        return str(o)
    if isinstance(o, float) and (o != o or o in (float('inf'), float('-inf'))):
        return str(o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return str(o)[:300]


class Case:
    def __init__(self, rec, sec, i, seed, tier, precision):
        import numpy as np
        self.rec, self.sec, self.i, self.tier, self.precision = rec, sec, i, tier, precision
        self.seed = seed
        self.rng = np.random.default_rng([seed & 0xffffffff, zlib.crc32(sec.name.encode()), i])
        self.desc = {}
        self.nontrivial = False
        self.evals = 0
        self.np = np

    # --- observation -------------------------------------------------
    def describe(self, **kw):
        self.desc.update(kw)

    def saw(self, event, n=1):
        self.rec['events'][event] = self.rec['events'].get(event, 0) + int(n)

    def skip(self):
        raise _Abort()

    # --- oracles -----------------------------------------------------
    def violation(self, key, msg, **witness):
        self.rec['violations'].append(dict(
            key=key, msg=str(msg)[:1500], section=self.sec.name, case=self.i, seed=self.seed,
            precision=self.precision, desc=_js(self.desc), witness=_js(witness)))

    def check(self, cond, key, msg='', **witness):
        self.evals += 1
        self.nontrivial = True
        if not bool(cond):
            self.violation(key, msg or key, **witness)
            return False
        return True

    def eq(self, a, b, key, msg='', **witness):
        """exact equality (NaN == NaN), shape included"""
        np = self.np
        a_, b_ = np.asarray(a), np.asarray(b)
        ok = a_.shape == b_.shape
        if ok:
            try:
                ok = np.array_equal(a_, b_, equal_nan=True)
            except TypeError:
                ok = np.array_equal(a_, b_)
        return self.check(ok, key, msg or f'{key}: observed {_js(a_)} expected {_js(b_)}', **witness)

    def near(self, a, b, key, rtol=None, atol=0.0, msg='', scale=None, **witness):
        """|a-b| <= atol + rtol*scale, scale defaults to max|b|"""
        np = self.np
        if rtol is None:
            rtol = 1e-9 if self.precision == 0 else 2e-5
        a_, b_ = np.asarray(a), np.asarray(b)
        if isinstance(b, (int, float)):
            b_ = np.full(a_.shape, float(b))
        if a_.shape != b_.shape:
            return self.check(False, key, f'{msg or key}: shape {a_.shape} expected {b_.shape}', **witness)
        if a_.size == 0:
            return True
        bad = ~np.isfinite(b_)
        if np.any(bad):
            if not np.array_equal(np.isfinite(a_), ~bad):
                return self.check(False, key, f'{msg or key}: non-finite pattern differs', **witness)
            a_, b_ = a_[~bad], b_[~bad]
            if a_.size == 0:
                return self.check(True, key)
        if not np.all(np.isfinite(a_)):
            return self.check(False, key, f'{msg or key}: non-finite values observed', **witness)
        s = float(np.max(np.abs(b_))) if scale is None else float(scale)
        err = float(np.max(np.abs(a_ - b_)))
        return self.check(err <= atol + rtol * s, key,
                          f'{msg or key}: max|err|={err:.4g} > {atol + rtol * s:.4g} (scale {s:.4g})',
                          observed=a_.ravel()[:12], expected=b_.ravel()[:12], **witness)

    def raises(self, exc, fn, key, msg=''):
        try:
            fn()
        except exc:
            return self.check(True, key)
        except Exception as e:
            return self.check(False, key, f'{msg or key}: raised {type(e).__name__}: {e}, expected {exc}')
        return self.check(False, key, f'{msg or key}: no exception, expected {exc}')


def load_check(pid):
    path = os.path.join(VERIF, 'checks', pid.lower() + '.py')
    sys.path.insert(0, VERIF)
    spec = importlib.util.spec_from_file_location('check_' + pid.lower(), path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod.CHECK


def record_lines(folder):
    """Development aid: writes the lines of specula executed by this worker to a file in `folder`."""
    import atexit
    mon, seen = sys.monitoring, set()
    root = os.path.join(os.path.realpath(REPO), 'specula') + os.sep

    def line(code, n):
        if code.co_filename.startswith(root):
            seen.add((code.co_filename[len(root):], n))
        return mon.DISABLE
    mon.use_tool_id(2, 'verif')
    mon.register_callback(2, mon.events.LINE, line)
    mon.set_events(2, mon.events.LINE)

    def dump():
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, f'{os.getpid()}_{time.time_ns()}'), 'w') as f:
            f.writelines(f'{a}:{b}\n' for a, b in sorted(seen))
    atexit.register(dump)


def worker(argv):
    pid, secname, precision, seed, tier, lo, hi, out = argv
    precision, seed, lo, hi = int(precision), int(seed), int(lo), int(hi)
    import warnings
    warnings.filterwarnings('ignore')
    import numpy as np
    np.seterr(all='ignore')
    rec = dict(cases=0, evals=0, nontrivial=[], samples=[], violations=[], events={}, error=None)
    ck = load_check(pid)
    sec = ck.sections[secname]
    t_end = time.time() + sec.timeout - 30
    if os.environ.get('VERIF_LINES'):
        record_lines(os.environ['VERIF_LINES'])
    try:
        import specula
        if os.path.realpath(os.path.dirname(specula.__file__)) != os.path.realpath(os.path.join(REPO, 'specula')):
            raise RuntimeError(f'specula imported from {specula.__file__}')
        specula.init(device_idx=-1, precision=precision)
    except Exception as e:
        rec['error'] = f'cannot import specula: {type(e).__name__}: {e}\n{traceback.format_exc()}'
        json.dump(rec, open(out, 'w'))
        return
    from harness import sp
    base = os.getcwd()
    for i in range(lo, hi):
        if time.time() > t_end:
            rec['error'] = f'time budget exhausted at case {i}'
            break
        c = Case(rec, sec, i, seed, tier, precision)
        sp.IN_PLACE[0] = bool((i * 2654435761 >> 16) & 1)
        d = os.path.join(base, f'case{i}')
        os.makedirs(d)
        os.chdir(d)
        np.random.seed((seed * 1000003 + i) & 0x7fffffff)
        try:
            sec.fn(c)
        except _Abort:
            pass
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            in_repo = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)]
            where = tb[-1]
            txt = ''.join(traceback.format_exception(e))[-2500:]
            if in_repo:
                fr = in_repo[-1]
                rel = os.path.relpath(fr.filename, REPO)
                c.violation(f'{secname}:exception:{type(e).__name__}:{os.path.basename(rel)}',
                            f'valid use raised {type(e).__name__}: {e} at {rel}:{fr.lineno} in {fr.name}', trace=txt)
                c.evals += 1
                c.nontrivial = True
            else:
                # The public interface the workload uses is gone or changed shape
                rec['error'] = f'case {i} of {secname}: harness exception at {where.filename}:{where.lineno}\n{txt}'
                if not any(v['case'] == i for v in rec['violations']):
                    os.chdir(base)
                    break
        os.chdir(base)
        shutil.rmtree(d, ignore_errors=True)
        rec['cases'] += 1
        rec['evals'] += c.evals
        if c.nontrivial:
            h = hashlib.md5(json.dumps([secname, precision, _js(c.desc)], sort_keys=True).encode()).hexdigest()[:16]
            rec['nontrivial'].append(h)
            if len(rec['samples']) < 2:
                rec['samples'].append(dict(section=secname, case=i, precision=precision, oracle_evaluations=c.evals, **_js(c.desc)))
        if len(rec['violations']) > 60:
            break
    with open(out, 'w') as f:
        json.dump(rec, f)


def child_env(hashseed='0'):
    e = dict(os.environ)
    e.update(HOME=os.environ.get('HOME', '/root'), LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC', PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED=hashseed, PYTHONUNBUFFERED='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             MPLBACKEND='Agg', SPECULA_DISABLE_GPU='FALSE')
    e['PYTHONPATH'] = REPO
    return e


def load_known():
    """known_findings.txt: lines 'open: property=<id> key=<key> <what fails>' or 'fixed: ...' (suppresses nothing)."""
    known = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('open:'):
                parts = line.split(None, 3)
                known.append((parts[1].split('=', 1)[1], parts[2].split('=', 1)[1], parts[3].strip()))
    return known


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--section', action='append')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', min(8, os.cpu_count() or 2))))
    a = ap.parse_args(argv)
    t0 = time.time()
    ck = load_check(a.pid)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    scratch = tempfile.mkdtemp(prefix=f'verif_{a.pid}_')
    os.makedirs(os.path.join(scratch, 'mpl'))
    jobs = []
    if a.replay:
        r = json.load(open(a.replay))
        tier = r.get('tier', tier)
        a.seed = r['seed']
        jobs = [(r['section'], r['precision'], r['case'], r['case'] + 1, r.get('hashseed', '0'))]
    else:
        for s in ck.sections.values():
            if a.section and s.name not in a.section:
                continue
            n = s.n[tier]
            for prec in s.precisions:
                chunk = s.chunk or max(1, -(-n // 4))
                for k, lo in enumerate(range(0, n, chunk)):
                    jobs.append((s.name, prec, lo, min(n, lo + chunk), s.hashseeds[k % len(s.hashseeds)]))

    def run(job_i):
        k, (sname, prec, lo, hi, hs) = job_i
        d = os.path.join(scratch, f'job{k}')
        os.makedirs(d)
        out = os.path.join(scratch, f'out{k}.json')
        env = child_env(hs)
        env['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
        env['TMPDIR'] = d
        cmd = [PY, os.path.join(VERIF, 'harness', 'vf.py'), '--worker', a.pid, sname, str(prec), str(a.seed), tier,
               str(lo), str(hi), out]
        log = open(os.path.join(scratch, f'log{k}'), 'w+b')
        try:
            p = subprocess.Popen(cmd, cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                p.wait(timeout=ck.sections[sname].timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                return k, dict(error=f'watchdog: {sname} cases {lo}-{hi} exceeded {ck.sections[sname].timeout}s')
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            if not os.path.exists(out):
                log.seek(0)
                return k, dict(error=f'worker died rc={p.returncode} {sname} {lo}-{hi}: ' + log.read()[-2000:].decode(errors='replace'))
            return k, json.load(open(out))
        finally:
            log.close()
            shutil.rmtree(d, ignore_errors=True)

    results = {}
    try:
        with ThreadPoolExecutor(a.jobs) as ex:
            for k, r in ex.map(run, enumerate(jobs)):
                results[k] = r
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    errors, viols, nontriv, samples, events, per = [], [], set(), [], {}, {}
    cases = evals = 0
    for k, (sname, prec, lo, hi, hs) in enumerate(jobs):
        r = results[k]
        if r.get('error'):
            errors.append(r['error'])
        for v in r.get('violations', []):
            v['hashseed'] = hs
            v['tier'] = tier
            viols.append(v)
        cases += r.get('cases', 0)
        evals += r.get('evals', 0)
        nontriv.update(r.get('nontrivial', []))
        ps = per.setdefault(sname, dict(cases=0, nontrivial=0, oracle_evaluations=0))
        ps['cases'] += r.get('cases', 0)
        ps['nontrivial'] += len(r.get('nontrivial', []))
        ps['oracle_evaluations'] += r.get('evals', 0)
        if len([s for s in samples if s['section'] == sname]) < 2:
            samples += r.get('samples', [])[:1]
        for e, n in r.get('events', {}).items():
            events[e] = events.get(e, 0) + n
    for sname, ps in per.items():
        if ps['nontrivial'] == 0:
            errors.append(f'section {sname}: the deciding monitor was never reached')

    known = [(k[1], k[2]) for k in load_known() if k[0] == a.pid]
    new, seen_known = [], {}
    for v in viols:
        for key, what in known:
            if v['key'] == key:
                seen_known[key] = what
                break
        else:
            new.append(v)

    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = dict(property=a.pid, tier=tier, seed=a.seed, level='exploration',
              coverage=dict(evaluations=cases, distinct_nontrivial=len(nontriv), rule=ck.rule, samples=samples[:24],
                            oracle_evaluations=evals, per_section=per, events_observed=events),
              assumptions=ck.assumptions, violations=len(new), wall_s=round(time.time() - t0, 2))
    if not a.replay and not a.section:
        with open(os.path.join(VERIF, 'evidence', f'{a.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print(f'{a.pid} {tier} seed={a.seed}: {cases} cases, {len(nontriv)} distinct, {evals} oracle evaluations, '
          f'{ev["wall_s"]} s; events {events}')
    for key, what in seen_known.items():
        print(f'KNOWN-FINDING: property={a.pid} {key}: {what}')
    if new:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        by = {}
        for v in new:
            by.setdefault(v['key'], []).append(v)
        for key, vs in by.items():
            v = vs[0]
            p = os.path.join(rdir, f'{a.pid}_{hashlib.md5(key.encode()).hexdigest()[:10]}.json')
            if not a.replay:
                with open(p, 'w') as f:
                    json.dump(dict(property=a.pid, replay_cmd=f'./run.sh {a.pid} --replay {p}', **v), f, indent=1)
            print(f'  [{key}] x{len(vs)}: {v["msg"]}\n     case: {v["section"]}#{v["case"]} prec={v["precision"]} {json.dumps(v["desc"])[:600]}')
            print(f'VIOLATION property={a.pid} replay={p}')
        for e in errors:
            print('NOTE (also inconclusive):', e)
        return 1
    if errors:
        for e in errors:
            print('INCONCLUSIVE:', e)
        return 2
    return 0


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--worker':
        sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        # sections must see the same module object as the driver uses
        worker(sys.argv[2:])
    else:
        sys.exit(main())
