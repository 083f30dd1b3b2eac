"""C02: exact simulated time, lifecycle, refresh rule and stepping mode of the real loop."""
from harness.vf import CheckDef
CHECK = CheckDef('C02', rule=(
    'conv: seconds/ns conversions of random decimal times against exact decimal arithmetic. '
    'times: LoopControl/Simul runs with random run time, step and start time (incl. non-multiples and steps such as 1/300 s); the event log of '
    'recording probes gives every step time and every setup/finalize, compared with exact integer arithmetic. '
    'refresh: chains and joins of slow producers, optional inputs and input lists; the log must contain exactly the due runs. '
    'stepping: scripted answers to the stepping prompt; the log interleaves prompts and steps. Distinct by parameters.'),
    assumptions=['run times, steps and start times are given with at most ns resolution or are nearest-ns rounded'])


@CHECK.section('conv', quick=60, thorough=600, precisions=(0, 1))
def conv(c):
    from decimal import Decimal, ROUND_HALF_EVEN
    from specula.base_time_obj import BaseTimeObj
    from harness import sp
    rng = c.rng
    o = BaseTimeObj(target_device_idx=-1, precision=int(rng.integers(0, 2)))
    for _ in range(60):
        kind = int(rng.integers(4))
        if kind == 0:
            ns = int(rng.integers(0, 10 ** int(rng.integers(1, 15))))
            s = ns / 1e9
        elif kind == 1:
            s = float(rng.integers(1, 100000)) * 10.0 ** -int(rng.integers(1, 7))
        elif kind == 2:
            s = 1.0 / float(rng.integers(1, 5000))
        else:
            s = float(rng.integers(0, 10000)) * sp.pick(rng, [0.001, 0.002, 0.0005, 0.00025, 1e-9])
        exact = Decimal(s) * 1000000000
        want = int(exact.to_integral_value(ROUND_HALF_EVEN))
        if abs(exact - exact.to_integral_value(ROUND_HALF_EVEN)) > Decimal('0.49'):
            continue
        got = o.seconds_to_t(s)
        c.check(isinstance(got, int) and got == want, 'conv:seconds_to_t', f'seconds_to_t({s!r})={got!r}, exact {want}')
        back = o.t_to_seconds(want)
        c.check(o.seconds_to_t(back) == want, 'conv:roundtrip', f't_to_seconds({want})={back!r} -> {o.seconds_to_t(back)}')
        c.check(abs(Decimal(back) - Decimal(want) / 1000000000) <= Decimal(want) / 1000000000 * Decimal('3e-16'), 'conv:t_to_seconds',
                f't_to_seconds({want})={back!r}')
        c.saw('conversions')
    c.describe(last=s)


def _timecase(rng, sp):
    dt_ns = int(sp.pick(rng, [1_000_000, 500_000, 250_000, 2_000_000, 3_333_333, 1_428_571, 700_000, 1, 7, 123_457, 1_000_000_000]))
    n = int(rng.integers(1, 40))
    T = n * dt_ns
    if rng.random() < 0.4:
        T = T - int(rng.integers(0, dt_ns)) if rng.random() < 0.5 else T + int(rng.integers(0, dt_ns))
    t0 = int(sp.pick(rng, [0, 0, dt_ns, 3 * dt_ns, 1_000_000_007, 12_345, dt_ns * 1000 + 1]))
    return max(T, 1), dt_ns, t0


def _check_life(c, log, names, times, key):
    """exactly one setup before anything, exactly one finalize after everything, steps at the given times"""
    for nm in names:
        ev = [e for e in log if e[1] == nm]
        kinds = [e[0] for e in ev]
        if not c.check(kinds.count('setup') == 1 and kinds[0] == 'setup', key + ':setup', f'{nm}: setup events {kinds.count("setup")}, first {kinds[:1]}'):
            return
        if not c.check(kinds.count('final') == 1 and kinds[-1] == 'final', key + ':finalize', f'{nm}: finalize events {kinds.count("final")}, last {kinds[-1:]}'):
            return
        got = [e[2] for e in ev if e[0] == 'run']
        if not c.check(got == times[nm] and all(isinstance(t, int) for t in got), key + ':step-times',
                       f'{nm}: ran at {len(got)} times {got[:4]}..{got[-3:]}, expected {len(times[nm])}: {times[nm][:4]}..{times[nm][-3:]}'):
            return
        for ph in ('prepare', 'post'):
            g = [e[2] for e in ev if e[0] == ph]
            c.check(g == times[nm], key + ':phase-times', f'{nm}: {ph} at {g[:5]}')
        cts = [(e[2], e[4]) for e in ev if e[0] == 'prepare']
        bad = [(t, s) for t, s in cts if abs(s - t / 1e9) > 1e-15 * max(1, t / 1e9) * 4]
        c.check(not bad, key + ':current-time-seconds', f'{nm}: current_time_seconds wrong: {bad[:3]}')
    first_step = min([i for i, e in enumerate(log) if e[0] in ('prepare', 'run', 'post')], default=len(log))
    last_step = max([i for i, e in enumerate(log) if e[0] in ('prepare', 'run', 'post')], default=-1)
    c.check(all(i < first_step for i, e in enumerate(log) if e[0] == 'setup'), key + ':setup-after-step', 'a setup ran after the first step')
    c.check(all(i > last_step for i, e in enumerate(log) if e[0] == 'final'), key + ':finalize-before-last', 'a finalize ran before the last step')
    c.saw('steps', sum(len(t) for t in times.values()))


@CHECK.section('times', quick=150, thorough=2500)
def times(c):
    import contextlib, io
    from harness import sp
    from harness.probes import verif_probe as vp
    from specula.loop_control import LoopControl
    rng = c.rng
    T, dt, t0 = _timecase(rng, sp)
    speed = bool(rng.random() < 0.3)
    c.describe(T=T, dt=dt, t0=t0)
    k = (T + dt - 1) // dt
    want = [t0 + i * dt for i in range(k)]
    assert want[-1] < t0 + T <= want[-1] + dt
    vp.clear()
    loop = LoopControl()
    probes = [vp.VerifProbe(ident=i, target_device_idx=-1) for i in range(3)]
    for i, p in enumerate(probes):
        p.name = f'p{i}'
    probes[1].inputs['a'].set(probes[0].outputs['out'])
    probes[2].inputs['b'].set(probes[1].outputs['out'])
    idx = sorted(int(x) for x in rng.choice(20, 3, replace=False))
    for j in rng.permutation(3):
        loop.add(probes[int(j)], idx[int(j)])
    with contextlib.redirect_stdout(io.StringIO()):
        if rng.random() < 0.5:
            loop.run(T / 1e9, dt / 1e9, t0=t0 / 1e9, speed_report=speed)
        else:
            loop.start(T / 1e9, dt / 1e9, t0=t0 / 1e9)
            while loop.t < loop.t0 + loop.run_time:
                loop.iter()
            loop.finish()
    _check_life(c, vp.LOG, ['p0', 'p1', 'p2'], {f'p{i}': want for i in range(3)}, 'times')
    for p in probes:
        c.check(p.outputs['out'].generation_time == want[-1], 'times:generation-time', f'{p.outputs["out"].generation_time} expected {want[-1]}')
    # the number of iterations announced by the loop is the number executed
    c.check(loop.niters() == k, 'times:niters', f'niters()={loop.niters()} but {k} steps due')


@CHECK.section('simul_times', quick=40, thorough=500)
def simul_times(c):
    from harness import sp
    from harness.probes import verif_probe as vp
    rng = c.rng
    dt = float(sp.pick(rng, [0.001, 0.0005, 0.002, 0.0007, 1 / 300, 0.01, 0.1, 1.0, 0.05]))
    n = int(rng.integers(1, 30))
    frac = float(sp.pick(rng, [0, 0, 0.5, -0.3]))
    dtn = round(dt * 1e9)
    T = float(round((n + frac) * dtn)) / 1e9
    Tn = round(T * 1e9)
    k = -(-Tn // dtn)
    c.describe(dt=dt, T=T, n=n)
    want = [i * dtn for i in range(k)]
    vp.clear()
    sp.run_simul({'main': sp.main_params(1, time_step=dt, total_time=T),
                  'p0': {'class': 'VerifProbe', 'ident': 0, 'outputs': ['out']},
                  'wave': {'class': 'WaveGenerator', 'wave_type': 'SIN', 'amp': [1.0], 'freq': [3.0], 'outputs': ['output']},
                  'p1': {'class': 'VerifProbe', 'ident': 1, 'inputs': {'a': 'wave.output', 'b': 'p0.out'}, 'outputs': ['out']}})
    _check_life(c, vp.LOG, ['p0', 'p1'], {'p0': want, 'p1': want}, 'simul_times')


@CHECK.section('refresh', quick=120, thorough=2500)
def refresh(c):
    """run iff no connected inputs or a same-step input refreshed now; publication carries the step time"""
    from harness import sp
    from harness.probes import verif_probe as vp
    rng = c.rng
    n = int(rng.integers(2, 8))
    nsteps = int(rng.integers(4, 14))
    dt = 1_000_000
    period = [int(rng.integers(1, 5)) for _ in range(n)]
    ins = []
    for j in range(n):
        d = {}
        if j:
            for s in 'abc':
                if rng.random() < 0.35:
                    d[s] = int(rng.integers(j))
            if rng.random() < 0.35:
                d['lst'] = [int(x) for x in rng.choice(j, int(rng.integers(0, j + 1)), replace=False)]
        ins.append(d)
    c.describe(period=period, ins=ins, nsteps=nsteps)
    params = {'main': sp.main_params(nsteps)}
    for j in rng.permutation(n):
        q = {'class': 'VerifProbe', 'ident': int(j), 'period': period[j], 'style': sp.pick(rng, ['rebind', 'inplace']), 'outputs': ['out']}
        if ins[j]:
            q['inputs'] = {s: ([f'o{x}.out' for x in v] if isinstance(v, list) else f'o{v}.out') for s, v in ins[j].items()}
        params[f'o{j}'] = q
    vp.clear()
    s = sp.run_simul(params)
    gt = [-1] * n
    cnt = [0] * n
    due = {f'o{j}': [] for j in range(n)}
    for k in range(nsteps):
        for j in range(n):
            srcs = [x for v in ins[j].values() for x in (v if isinstance(v, list) else [v])]
            if not srcs or any(gt[x] == k * dt for x in srcs):
                due[f'o{j}'].append(k * dt)
                cnt[j] += 1
                if cnt[j] % period[j] == 0:
                    gt[j] = k * dt
    _check_life(c, vp.LOG, list(due), due, 'refresh')
    for j in range(n):
        o = s.objs[f'o{j}'].outputs['out']
        c.check(gt[j] < 0 or o.generation_time == gt[j], 'refresh:generation-time', f'o{j}: {o.generation_time} expected {gt[j]}')


@CHECK.section('real_objects', quick=60, thorough=600, precisions=(0, 1))
def real_objects(c):
    """real objects: published outputs carry exactly the time of the step that refreshed their input, and only then"""
    import numpy as np
    from harness import sp
    rng = c.rng
    kind = ['integrator', 'lowpass', 'op', 'mvm', 'slicer', 'dm', 'linear', 'window', 'modalrec', 'unary'][c.i % 10]
    n = int(rng.integers(2, 6))
    v = sp.val(np.zeros(n, dtype=np.float32 if c.precision else float), 0)
    dtp = 0.001
    prm = sp.simul_params(time_step=dtp, total_time=1.0)
    if kind == 'integrator':
        from specula.processing_objects.integrator import Integrator
        o = Integrator(prm, int_gain=[0.4], n_modes=[n], delay=float(rng.integers(0, 3)), target_device_idx=-1)
        o.inputs['delta_comm'].set(v)
    elif kind == 'lowpass':
        from specula.processing_objects.low_pass_filter import LowPassFilter
        o = LowPassFilter(prm, cutoff_freq=[50.0] * n, n_ord=1, target_device_idx=-1)
        o.inputs['delta_comm'].set(v)
    elif kind in ('op', 'unary'):
        from specula.processing_objects.base_operation import BaseOperation
        o = BaseOperation(constant_mul=2.0, target_device_idx=-1)
        o.inputs['in_value1'].set(v)
    elif kind == 'mvm':
        from specula.processing_objects.mvm import MVM
        from specula.data_objects.recmat import Recmat
        o = MVM(recmat=Recmat(np.eye(n), target_device_idx=-1), target_device_idx=-1)
        o.inputs['in_vector'].set(v)
    elif kind == 'slicer':
        from specula.processing_objects.base_slicer import BaseSlicer
        o = BaseSlicer(indices=[0, n - 1], target_device_idx=-1)
        o.inputs['in_value'].set(v)
    elif kind == 'dm':
        from specula.processing_objects.dm import DM
        o = DM(prm, height=0, type_str='zernike', nmodes=n, obsratio=0, target_device_idx=-1)
        o.inputs['in_command'].set(v)
    elif kind == 'linear':
        from specula.processing_objects.linear_combination import LinearCombination
        o = LinearCombination(prm, no_focus=True, no_lift=True, target_device_idx=-1)
        o.inputs['in_vectors_list'].set([v, sp.val(np.zeros(2), -1)])
    elif kind == 'window':
        from specula.processing_objects.windowed_integration import WindowedIntegration
        o = WindowedIntegration(prm, n_elem=n, dt=dtp, target_device_idx=-1)
        o.inputs['input'].set(v)
    elif kind == 'modalrec':
        from specula.processing_objects.modalrec import Modalrec
        from specula.data_objects.recmat import Recmat
        from specula.data_objects.slopes import Slopes
        v = Slopes(n * 2, target_device_idx=-1)
        v.generation_time = 0
        o = Modalrec(nmodes=n, recmat=Recmat(rng.standard_normal((n, n * 2)), target_device_idx=-1), target_device_idx=-1)
        o.inputs['in_slopes'].set(v)
    c.describe(kind=kind, n=n)
    o.setup()
    v.generation_time = -1
    t, want = int(rng.integers(0, 5)) * 1_000_000, None
    ran = []
    for k in range(12):
        fresh = bool(rng.random() < 0.5)
        if fresh:
            v.generation_time = t
        r = sp.step(o, t)
        c.check(r == fresh, 'real_objects:run-iff-refreshed', f'{kind}: ran={r} refreshed={fresh} at {t}')
        if r:
            want = t
            c.saw('runs')
        else:
            c.saw('skipped')
        if want is not None:
            for nm, out in o.outputs.items():
                if nm.startswith('out_pseudo'):
                    continue      # only published with pseudo-open-loop control
                g = [x.generation_time for x in (out if isinstance(out, list) else [out])]
                c.check(g == [want] * len(g), 'real_objects:generation-time', f'{kind}.{nm}: generation_time {g}, last run at {want}, now {t}')
        t += int(sp.pick(rng, [1_000_000, 1, 3_333_333]))


@CHECK.section('stepping', quick=60, thorough=600)
def stepping(c):
    import builtins, contextlib, io
    from harness import sp
    from harness.probes import verif_probe as vp
    from specula.loop_control import LoopControl
    rng = c.rng
    nsteps = int(rng.integers(3, 14))
    dt = int(sp.pick(rng, [1_000_000, 333_333, 2_000_000]))
    t0 = int(sp.pick(rng, [0, 0, 5 * dt]))
    script = []
    for _ in range(nsteps + 2):
        r = rng.random()
        script.append('' if r < 0.4 else str(int(rng.integers(1, 6))) if r < 0.8 else 'c' if r < 0.88 else 'q' if r < 0.94 else ' 2 ' if r < 0.97 else 'zzz')
    # model: expected interleaving of prompts ('?') and step times
    want, left, cont, it = [], 0, False, iter(script)
    for k in range(nsteps):
        if not cont and left == 0:
            want.append('?')
            a = next(it).strip()
            if a == 'q':
                break
            if a == 'c':
                cont = True
            left = int(a) if a.isdigit() else 1
        want.append(t0 + k * dt)
        left -= 1
    c.describe(script=script, nsteps=nsteps, dt=dt, t0=t0)
    vp.clear()
    p = vp.VerifProbe(ident=1, target_device_idx=-1)
    p.name = 'p'
    loop = LoopControl(stepping=True)
    loop.add(p, 0)
    answers = iter(script)
    orig = builtins.input

    def fake(prompt=''):
        vp.LOG.append(('?', 'prompt'))
        return next(answers)
    builtins.input = fake
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            loop.run(nsteps * dt / 1e9, dt / 1e9, t0=t0 / 1e9)
    finally:
        builtins.input = orig
    got = ['?' if e[0] == '?' else e[2] for e in vp.LOG if e[0] in ('?', 'run')]
    c.check(got == want, 'stepping:interleaving', f'prompts/steps {got}, expected {want}')
    kinds = [e[0] for e in vp.LOG]
    c.check(kinds.count('setup') == 1 and kinds.count('final') == 1 and kinds[-1] == 'final', 'stepping:lifecycle', f'{kinds[:2]}..{kinds[-2:]}')
    c.saw('prompts', got.count('?'))
    c.saw('steps', len(got) - got.count('?'))
