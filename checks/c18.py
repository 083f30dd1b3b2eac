"""C18: generated signals follow their closed form at every step."""
from harness.vf import CheckDef
CHECK = CheckDef('C18', rule=(
    'Each case builds one generator with random parameters (scalars, vectors, sizes), steps it over a random time base (start offset, '
    'step size, length) and compares the value published at every step with the closed form evaluated independently at that time or '
    'step index; random and vibration signals are compared with their requested moments, range, independence and spectrum using bounds '
    'of at least six standard errors, and with a second realisation from the same and another seed. Non-trivial: at least two steps '
    'compared; distinct by configuration.'),
    assumptions=['square waves are not compared within rounding of their edges',
                 'single precision phases are compared up to the rounding of the phase argument'])


def times(rng):
    import numpy as np
    dt = int(rng.choice([100_000, 500_000, 1_000_000, 333_333, 2_000_000, 1, 10_000_000]))
    t0 = int(rng.choice([0, 0, 0, 7 * dt, 1_000_000_000]))
    n = int(rng.integers(3, 30))
    return [t0 + k * dt for k in range(n)]


@CHECK.section('wave', quick=300, thorough=12000, precisions=(0, 1), chunk=100)
def wave(c):
    import numpy as np
    from harness import sp
    from specula.processing_objects.wave_generator import WaveGenerator
    rng = c.rng
    dtp = np.float64 if c.precision == 0 else np.float32
    n = int(rng.integers(1, 6))
    kind = str(sp.pick(rng, ['SIN', 'SQUARE', 'TRIANGLE', 'sin', 'Square', 'triangle']))
    kw = {}
    scales = dict(amp=10, freq=100, offset=3, slope=5, constant=2)
    anyvec = False
    for name, s in scales.items():
        r = rng.random()
        if r < 0.25:
            continue
        vec = n > 1 and rng.random() < 0.5
        v = rng.normal(size=n) * s if vec else float(rng.normal() * s)
        if name == 'freq':
            v = np.abs(v)
        anyvec |= vec
        kw[name] = v.tolist() if vec and rng.integers(2) else v
    size = n if anyvec else 1
    how = str(sp.pick(rng, ['none', 'vsize', 'output_size']))
    if not anyvec and how != 'none':
        size = int(rng.integers(1, 6))
        kw[how] = size
    c.describe(kind=kind, kw={k: str(v) for k, v in kw.items()})
    g = WaveGenerator(kind, **kw, target_device_idx=-1)
    g.setup()
    out = g.outputs['output']
    P = {k: np.asarray(kw.get(k, 0.0), dtype=dtp).astype(float) for k in scales}
    eps = 1e-15 if c.precision == 0 else 1.3e-7
    for t in times(rng):
        c.check(sp.step(g, t), 'runs')
        ts = t / 1e9
        ph = P['freq'] * 2 * np.pi * ts + P['offset']
        perr = 8 * eps * (np.abs(P['freq']) * 2 * np.pi * ts + np.abs(P['offset']) + 1)
        s = np.sin(ph)
        K = kind.upper()
        if K == 'SIN':
            w, werr = s, perr
        elif K == 'TRIANGLE':
            # 2/pi asin(sin) written as a folding of the phase
            q = np.mod(ph + np.pi / 2, 2 * np.pi)
            w = np.where(q < np.pi, q, 2 * np.pi - q) * 2 / np.pi - 1
            werr = perr + 3 * np.sqrt(eps)      # arcsin near its ends
        else:
            w, werr = np.sign(s), np.where(np.abs(s) < perr, 2.5, 0)
        want = P['slope'] * ts + P['amp'] * w + P['constant']
        atol = np.abs(P['amp']) * werr + 10 * eps * (np.abs(P['slope'] * ts) + np.abs(P['amp']) + np.abs(P['constant']))
        v = np.asarray(out.value, float)
        if c.check(v.shape == (size,), 'shape', f'{v.shape} != {size}'):
            c.check(np.all(np.abs(v - want) <= atol), f'wave:{K}', f't={ts}: {v} != {want}')
        c.check(out.generation_time == t and out.value.dtype == dtp, 'time-or-precision')
        c.saw('samples')
    c.raises(ValueError, lambda: WaveGenerator('SAW', amp=1.0, target_device_idx=-1), 'unknown-type')
    if n > 2:
        c.raises(ValueError, lambda: WaveGenerator('SIN', amp=[1.0] * n, freq=[2.0] * (n - 1), target_device_idx=-1), 'size-mismatch')


@CHECK.section('table', quick=300, thorough=12000, precisions=(0, 1), chunk=100)
def table(c):
    """schedules, time histories and push-pull sequences"""
    import numpy as np
    from harness import sp
    from specula.data_objects.time_history import TimeHistory
    from specula.processing_objects.schedule_generator import ScheduleGenerator
    from specula.processing_objects.time_history_generator import TimeHistoryGenerator
    from specula.processing_objects.push_pull_generator import PushPullGenerator
    rng = c.rng
    dtp = np.float64 if c.precision == 0 else np.float32
    kind = str(sp.pick(rng, ['schedule', 'history', 'pushpull', 'pushpull']))
    T = times(rng)
    if kind == 'schedule':
        ng = int(rng.integers(1, 4))
        mpg = [int(x) for x in rng.integers(1, 4, size=ng)]
        m = int(rng.integers(0, 5))
        # switching times both on and between steps
        tt = set()
        for _ in range(m):
            j = int(rng.integers(1, len(T)))
            tt.add(T[j] if rng.random() < 0.6 or T[1] - T[0] < 1000 else T[j] - (T[1] - T[0]) // 2)
        tt = sorted(tt)
        vals = rng.normal(size=(len(tt) + 1, ng)).round(3)
        c.describe(kind=kind, mpg=mpg, tt=tt, T=T[:2], n=len(T))
        if c.precision == 1 and (T[-1] > 2e9 or T[1] - T[0] < 1000):
            c.skip()     # steps are not resolved by single precision time
            return
        g = ScheduleGenerator(vals.tolist(), [t / 1e9 for t in tt], mpg if ng > 1 or rng.integers(2) else mpg[0], target_device_idx=-1)
        want = [np.repeat(vals[sum(x <= t for x in tt)], mpg) for t in T]
        c.raises(ValueError, lambda: ScheduleGenerator(vals.tolist(), [0.1] * (len(tt) + 1), mpg, target_device_idx=-1), 'schedule-refused')
        c.raises(ValueError, lambda: ScheduleGenerator(vals.tolist(), [t / 1e9 for t in tt], mpg + [1], target_device_idx=-1), 'schedule-refused')
    elif kind == 'history':
        n = int(rng.integers(1, 12))
        h = rng.normal(size=(n,) if rng.random() < 0.3 else (n, int(rng.integers(1, 5))))
        c.describe(kind=kind, shape=h.shape, n=len(T))
        g = TimeHistoryGenerator(TimeHistory(h.copy(), target_device_idx=-1), target_device_idx=-1)
        want = [np.atleast_1d(h[min(k, n - 1)]) for k in range(len(T))]
    else:
        nm = int(rng.integers(1, 8))
        first = int(rng.integers(0, nm)) if rng.random() < 0.5 else 0
        push = bool(rng.random() < 0.3)
        pat = [1] if push else [round(float(x), 2) for x in rng.normal(size=int(rng.integers(1, 5)))] if rng.random() < 0.5 else [1, -1]
        nc = int(rng.integers(1, 4))
        ns = 1 if push else int(rng.integers(1, 4))
        rn, rf = bool(rng.integers(2)), bool(rng.integers(2))
        va = [float(x) for x in rng.uniform(1, 50, size=nm - first)] if rng.random() < 0.4 else None
        amp = float(rng.uniform(1, 50))
        const = bool(rng.integers(2))
        kw = dict(nmodes=nm, first_mode=first, push_pull_type=str(sp.pick(rng, ['PUSH', 'push'] if push else ['PUSHPULL', 'pushpull'])),
                  ncycles=nc, nsamples=ns, repeat_ncycles=rn, repeat_full_sequence=rf)
        if not push:
            kw['pattern'] = pat
        if va is None:
            kw.update(amp=amp, constant_amp=const)
        else:
            kw['vect_amplitude'] = va
        c.describe(kind=kind, **{k: str(v) for k, v in kw.items()})
        g = PushPullGenerator(**kw, target_device_idx=-1)

        def order(j):            # radial order of mode j (0 = tip)
            n, k = 1, 2
            while j >= k:
                n += 1
                k += n + 1
            return n
        A = [va[m - first] if va is not None else amp if const else amp / np.sqrt(order(m)) for m in range(first, nm)]
        seq = []
        for cyc in range(nc if rf else 1):
            for a, m in zip(A, range(first, nm)):
                if rf:
                    pk = list(pat)
                elif rn:
                    pk = [p for p in pat for _ in range(nc)]
                else:
                    pk = list(pat) * nc
                for p in pk:
                    v = np.zeros(nm)
                    v[m] = a * p
                    seq += [v] * ns
        want = seq
        dt = T[1] - T[0]
        T = [T[0] + k * dt for k in range(len(seq))]
        c.raises(ValueError, lambda: PushPullGenerator(nmodes=2, target_device_idx=-1), 'no-amplitude')
    g.setup()
    out = g.outputs['output']
    for k, (t, w) in enumerate(zip(T, want)):
        c.check(sp.step(g, t), 'runs')
        v = np.asarray(out.value)
        if c.check(v.shape == w.shape, f'shape:{kind}', f'{v.shape} {w.shape}'):
            c.check(np.allclose(v, w, rtol=1e-12 if c.precision == 0 else 1e-6, atol=1e-12), f'value:{kind}', f'step {k}: {v} != {w}')
        c.check(out.generation_time == t and v.dtype == dtp, 'time-or-precision')
        c.saw('samples')


@CHECK.section('random', quick=60, thorough=2000, precisions=(0, 1), chunk=15)
def random(c):
    import numpy as np
    from harness import sp
    from specula.processing_objects.random_generator import RandomGenerator
    rng = c.rng
    dtp = np.float64 if c.precision == 0 else np.float32
    dist = str(sp.pick(rng, ['NORMAL', 'UNIFORM', 'normal']))
    n = int(rng.integers(1, 6))
    kw = {'distribution': dist}
    modal = rng.random() < 0.3
    if modal:
        n = int(rng.integers(2, 16))
        z = int(rng.integers(0, n))
        law = str(sp.pick(rng, ['CONSTANT', 'INVERSE', 'LINEAR', 'linear']))
        rms = float(rng.uniform(1, 100))
        kw.update(modal_rms=rms, output_size=n, forced_zero_modes=z, scaling_law=law)
        o = np.array([0] + [m for m in range(1, 8) for _ in range(m + 1)])[:n].astype(float)
        o[o == 0] = 1
        A = {'CONSTANT': np.ones(n), 'INVERSE': 1 / o, 'LINEAR': o}[law.upper()]
        A[:z] = 0
        A = A * rms / np.sqrt((A ** 2).sum())
        const = 0.0
    else:
        A = np.abs(rng.normal(size=n)) + 0.1
        if rng.random() < 0.4:
            A = float(A[0])
        kw['amp'] = A.tolist() if not np.isscalar(A) else A
        const = rng.normal(size=n) * 3 if rng.random() < 0.4 else float(rng.normal())
        kw['constant'] = const if np.isscalar(const) else const.tolist()
        if np.isscalar(A) and np.isscalar(const):
            how = str(sp.pick(rng, ['vsize', 'output_size', 'none']))
            if how == 'none':
                n = 1
            else:
                kw[how] = n
    seed = int(rng.integers(0, 2 ** 31))
    c.describe(seed=seed, **{k: str(v) for k, v in kw.items()})
    mk = lambda s: RandomGenerator(**kw, seed=s, target_device_idx=-1)
    a, b, d = mk(seed), mk(seed), mk(seed + 1)
    N = 1500
    X, Z = np.zeros((N, n)), np.zeros((N, n))
    for o in (a, b, d):
        o.setup()
    same = True
    for k in range(N):
        t = k * 1_000_000
        sp.step(a, t)
        sp.step(d, t)
        np.random.random()
        va = np.array(a.outputs['output'].value)
        if k < 30:
            sp.step(b, t)
            same &= np.array_equal(va, b.outputs['output'].value)
        if not c.check(va.shape == (n,) and va.dtype == dtp, 'shape', f'{va.shape} {va.dtype}'):
            return
        X[k], Z[k] = va, d.outputs['output'].value
    c.check(same, 'reproducible', 'same seed, different sequence')
    A = np.broadcast_to(np.asarray(A, float), n)
    C = np.broadcast_to(np.asarray(const, float), n)
    live = A > 0
    c.check(np.all(np.abs(X[:, ~live] - C[~live]) < 1e-6), 'forced-zero')
    X, Z, A, C = X[:, live], Z[:, live], A[live], C[live]
    c.check(not np.any(X[:50] == Z[:50]), 'other-seed', 'another seed gives the same values')
    sd = A if dist.upper() == 'NORMAL' else A / np.sqrt(12)
    Y = (X - C) / sd
    se = 1 / np.sqrt(N)
    c.check(np.all(np.abs(Y.mean(0)) < 7 * se), f'mean:{dist.upper()}', f'{Y.mean(0)}')
    ks = np.sqrt(2) if dist.upper() == 'NORMAL' else np.sqrt(0.8)
    c.check(np.all(np.abs(Y.var(0) - 1) < 7 * ks * se + 0.01), f'variance:{dist.upper()}', f'{Y.var(0)}')
    if dist.upper() == 'UNIFORM':
        c.check(np.all(np.abs(X - C) <= A / 2 * (1 + 1e-5)), 'range')
    else:
        c.check(abs((np.abs(Y) < 1).mean() - 0.6827) < 7 * 0.47 * se, 'gaussian')
    c.check(np.all(np.abs((Y[1:] * Y[:-1]).mean(0)) < 8 * se), 'white')
    if Y.shape[1] > 1:
        R = Y.T @ Y / N
        c.check(np.all(np.abs(R - np.diag(np.diag(R))) < 8 * se), 'independent-modes')
    R = (Y * (Z - C) / sd).mean(0)
    c.check(np.all(np.abs(R) < 8 * se), 'independent-seeds')
    c.saw('samples', N)


@CHECK.section('vibration', quick=60, thorough=2500, precisions=(0, 1), chunk=15)
def vibration(c):
    import numpy as np
    from harness import sp
    from specula.processing_objects.vibration_generator import VibrationGenerator
    rng = c.rng
    dtp = np.float64 if c.precision == 0 else np.float32
    dt = float(rng.choice([0.001, 0.0005, 0.002, 0.1, 0.003]))
    N = int(rng.integers(40, 400))
    nm = int(rng.integers(48, 96))
    fs = 1 / dt
    top = float(sp.pick(rng, [1.0, 1.0, 0.5, 0.25])) * fs / 2
    nf = int(rng.integers(5, 80))
    f0 = float(sp.pick(rng, [0.0, 0.0, top / nf]))
    freq = np.linspace(f0, top, nf)
    shape = str(sp.pick(rng, ['white', 'ramp', 'peak']))
    if shape == 'white':
        psd = np.full(nf, rng.uniform(0.5, 5))
    elif shape == 'ramp':
        psd = rng.uniform(0.5, 5) * (1 + 3 * np.arange(nf) / nf)
    else:
        psd = 5 * np.exp(-0.5 * ((freq - rng.uniform(0.2, 0.7) * top) / (0.08 * top)) ** 2) + 0.01
    seed = int(rng.integers(0, 10000))
    sfz = bool(rng.integers(2))
    fform = freq if rng.integers(2) else np.tile(freq, (nm, 1)).T
    scale = np.ones(nm) if rng.integers(2) else rng.uniform(0.5, 2, size=nm)
    c.describe(dt=dt, N=N, nm=nm, top=top, f0=f0, nf=nf, shape=shape, sfz=sfz, fdim=fform.ndim)
    par = sp.simul_params(time_step=dt, total_time=N * dt)
    mk = lambda s, k=nm, p=None: VibrationGenerator(par, k, psd=(p if p is not None else np.outer(scale, psd))[:k], freq=fform if fform.ndim == 1 else fform[:, :k],
                                                  seed=s, start_from_zero=sfz, target_device_idx=-1)
    g = mk(seed)
    g.setup()
    X = np.zeros((N, nm))
    for k in range(N):
        sp.step(g, k * round(dt * 1e9))
        v = g.outputs['output'].value
        c.check(v.shape == (nm,) and v.dtype == dtp, 'shape')
        X[k] = v
    c.saw('samples', N)
    sd = np.sqrt((X ** 2).mean())
    c.check(np.all(np.any(np.diff(X, axis=0) != 0, axis=1)), 'every-step', 'the signal stops changing before the end of the run')
    if sfz:
        c.check(np.all(X[0] == 0), 'start-from-zero')
    j = int(rng.integers(1, nm))
    h = mk(seed + j, 1, np.outer([scale[j]], psd))
    h.setup()
    sp.step(h, 0)
    sp.step(h, round(dt * 1e9))
    c.check(np.allclose(h.outputs['output'].value[0], X[1, j], rtol=1e-5, atol=1e-5 * sd), 'seed-per-mode', 'mode j does not follow seed+j')
    # spectrum, averaged over modes.  An even number of samples is generated, so for odd N one extra is missing.
    Xs = X / np.sqrt(scale)
    M = N
    if N % 2:
        sp.step(g, N * round(dt * 1e9))
        Xs = np.vstack([Xs, np.array(g.outputs['output'].value) / np.sqrt(scale)])
        M = N + 1
    Xs = Xs - Xs.mean(0)
    df = fs / M
    P = (np.abs(np.fft.rfft(Xs, axis=0) / M) ** 2)[1:M // 2] * 2 / df        # one-sided density at df, 2df, ...
    fb = df * np.arange(1, M // 2)
    want = np.interp(fb, freq, psd, left=0, right=0)
    got = P.mean(1)
    # allow the requested curve to be sampled one frequency bin away
    lo = np.minimum(np.minimum(want, np.interp(fb - df, freq, psd, left=0, right=0)), np.interp(fb + df, freq, psd, left=0, right=0))
    hi = np.maximum(np.maximum(want, np.interp(fb - df, freq, psd, left=psd[0], right=0)), np.interp(fb + df, freq, psd, left=psd[0], right=0))
    se = 7 / np.sqrt(nm)
    tiny = 1e-5 * psd.max()
    c.check(np.all(got <= hi * (1 + se) + tiny), f'spectrum-high:{shape}', f'excess power at {fb[np.argmax(got - hi * (1 + se))]} Hz')
    c.check(np.all(got >= lo * (1 - se) - tiny) if se < 1 else True, f'spectrum-low:{shape}')
    nb = max(1.0, want.sum() ** 2 / max((want ** 2).sum(), 1e-30))      # effective number of bins
    c.check(lo.sum() * (1 - se / np.sqrt(nb)) * 0.98 - tiny <= got.sum() <= hi.sum() * (1 + se / np.sqrt(nb)) * 1.02 + tiny, f'spectrum-total:{shape}',
            f'{got.sum() * df} not in {lo.sum() * df}..{hi.sum() * df}')


def _feed(q, items):
    for x in items:
        q.put(x)
    q.close()
    q.join_thread()


@CHECK.section('interactive', quick=40, thorough=600, precisions=(0, 1), chunk=20)
def interactive(c):
    """values fed from outside: at each step every output holds the last value sent to it so far, refreshed only when something arrived; unknown names are ignored"""
    import functools, queue
    import numpy as np
    from harness import sp
    from specula.processing_objects.specula_input import SpeculaInput
    rng = c.rng
    names = [f'o{k}' for k in range(int(rng.integers(1, 4)))]
    ts = times(rng)
    vals = [1.5, np.arange(3.0), 'text', False, 0]
    plan = []
    for t in ts:
        n = int(sp.pick(rng, [0, 0, 1, 2, 5]))
        plan.append([(str(rng.choice(names + ['nobody'])), vals[int(rng.integers(len(vals)))]) for _ in range(n)])
    process = rng.random() < 0.3                        # everything sent by the separate process, before the first step
    if process:
        plan = [sum(plan, [])] + [[] for _ in plan[1:]]
    c.describe(names=names, steps=len(ts), sent=[[k for k, _ in p] for p in plan], process=process)
    with sp.quiet():
        o = SpeculaInput(list(names), target_device_idx=-1)
        if process:
            o.set_input_task(functools.partial(_feed, items=plan[0]))
            o.p.join(60)
            c.check(o.p.exitcode == 0, 'interactive:task', f'exit code {o.p.exitcode}')
        else:
            o.q = queue.Queue()
        o.setup()
    last = {}
    for t, p in zip(ts, plan):
        if not process:
            for x in p:
                o.q.put(x)
        with sp.quiet():
            sp.step(o, t)
        for k, v in p:
            if k in names:
                last[k] = (v, t)
        for k in names:
            v, tt = last.get(k, (None, -1))
            got = o.outputs[k]
            c.saw('outputs compared')
            c.check(got.generation_time == tt, 'interactive:time', f'{k} at {t}: {got.generation_time}, last sent {tt}')
            if tt >= 0:
                c.check(type(got.value) is type(v) and np.array_equal(got.value, v), 'interactive:value', f'{k} at {t}: {got.value!r}, last sent {v!r}')
    c.check(set(o.outputs) == set(names), 'interactive:outputs', f'{list(o.outputs)}')
