"""C24: demodulation, optical gain tracking and modal gain optimisation recover the truth of the signals they are given."""
from harness.vf import CheckDef
CHECK = CheckDef('C24', rule=(
    'Synthetic modulated signals with known amplitude, phase, offset, trend and neighbouring carriers are demodulated by the real function and the real Demodulator over several windows; simulated modulated loops with a known '
    'optical gain are tracked by real Demodulators and OpticalGainEstimators; random loops are closed around real filters and optimised by the real GainOptimizer, whose every published gain is judged by the poles of the loop it closes '
    'and by an independent residual-variance curve. Distinct by parameters.'),
    assumptions=['windows of at least two carrier periods and 3.5 samples per period', 'demodulation error bounds (order 1/periods) are those of a finite window and were measured over 6000 random signals',
                 'filters with a non-zero leading coefficient'])


def bounds(periods, n, cumulated):
    """(relative amplitude error, phase error) a finite window allows"""
    import numpy as np
    b = (0.35 + 0.32 * np.log(periods)) / periods
    whole = abs(periods - round(periods)) < 1e-6
    if cumulated:
        return (1.15 * b, 0.5 * b) if whole else (1.5 * b, b)
    return (3.2 / n, 2.0 / n) if whole else (0.75 / periods, 0.4 / periods)


def wrap(p):
    import numpy as np
    return (np.asarray(p) + np.pi) % (2 * np.pi) - np.pi


@CHECK.section('signal', quick=160, thorough=3000)
def signal(c):
    """known sinusoids: amplitude and phase; offsets, trends, scale, sign, other signals and array layout do not matter"""
    import numpy as np
    from harness import sp
    from specula.lib.demodulate_signal import demodulate_signal
    rng, prec = c.rng, c.precision
    dtype = np.float64 if prec == 0 else np.float32
    cum = bool(rng.random() < 0.6)
    whole = bool(rng.random() < 0.5)
    if whole:
        S, P = int(rng.integers(4, 30)), int(rng.integers(2, 40))
        n = S * P
    else:
        S, P = float(rng.uniform(3.6, 30)), float(np.exp(rng.uniform(np.log(2.2), np.log(40))))
        n = int(round(S * P))
        P = n / S
    if n > 700:
        n, P = 700, 700 / S
        whole = abs(P - round(P)) < 1e-6
    fs = float(10 ** rng.uniform(1, 3.3))
    f = fs / S
    ns = int(rng.integers(1, 6))
    A = 10 ** rng.uniform(-3, 3, ns)
    ph = rng.uniform(-np.pi, np.pi, ns)
    t = np.arange(n) / fs
    x = A * np.cos(2 * np.pi * f * t[:, None] - ph)
    c.describe(cum=cum, P=P, S=S, n=n, fs=fs, ns=ns, A=A.tolist(), ph=ph.tolist(), prec=prec)
    arg = lambda d, **k: demodulate_signal(d, f, fs, cumulated=cum, dtype=dtype, **k)
    ba, bp = bounds(P, n, cum)
    eps = 1e-4 if prec == 1 or cum else 1e-9
    with sp.quiet():
        v, p = arg(x)
    v, p = np.asarray(v, dtype=float), np.asarray(p, dtype=float)
    c.saw('signal demodulated', ns)
    if not c.check(v.shape == (ns,) and p.shape == (ns,), 'signal:shape', f'{v.shape} {p.shape}'):
        return
    e = np.abs(v / A - 1)
    c.check(np.all(e <= ba + 10 * eps), 'signal:amplitude', f'relative error {e.max():.3g}, a window of {P:.3g} periods allows {ba:.3g}')
    d = np.abs(wrap(p - ph))
    c.check(np.all(d <= bp + 10 * eps), 'signal:phase', f'error {d.max():.3g}, allowed {bp:.3g}')
    c.check(np.all(v >= 0), 'signal:negative amplitude', str(v))
    # relative phase and amplitude ratio of two signals are more accurate than each alone when both have the same phase
    kind = sp.pick(rng, ['one', 'offset', 'trend', 'scale', 'sign', 'swap', 'list', 'second', 'quiet'])
    c.saw(kind)
    tol = 5e-3 if prec == 1 else eps
    with sp.quiet():
        if kind == 'one':
            j = int(rng.integers(0, ns))
            v1, p1 = arg(x[:, j], verbose=bool(rng.random() < 0.3))
            c.check(np.ndim(v1) == 0 and np.ndim(p1) == 0, 'signal:scalar result', '')
            c.near(v1, v[j], 'signal:one of many amplitude', rtol=1e-5)
            c.check(abs(wrap(p1 - p[j])) < 1e-4, 'signal:one of many phase', f'{p1} {p[j]}')
        if kind == 'offset':
            off = A * rng.uniform(-20, 20, ns)
            v1, p1 = arg(x + off)
            c.near(v1 / A, v / A, 'signal:offset changes amplitude', rtol=tol, atol=tol)
            c.check(np.max(np.abs(wrap(p1 - p))) < tol, 'signal:offset changes phase', f'{p1} {p}')
        if kind == 'trend':
            sl = A * rng.uniform(-5, 5, ns) / n
            v1, p1 = arg(x + sl * np.arange(n)[:, None])
            # the single-pass variant removes the slope over n instead of n - 1 samples
            q = tol if cum else max(tol, 25.0 / n)
            c.near(v1 / A, v / A, 'signal:trend changes amplitude', rtol=q, atol=q)
            if cum:
                # the phase reference of the whole window leaves a slope of 1/n
                q = max(tol, 25.0 / n)
            c.check(np.max(np.abs(wrap(p1 - p))) < q, 'signal:trend changes phase', f'{p1} {p} {q}')
        if kind in ('scale', 'sign'):
            k = float(10 ** rng.uniform(-2, 2))
            s = -1 if kind == 'sign' else 1
            v1, p1 = arg(x * k * s)
            c.near(v1 / k / A, v / A, f'signal:{kind} amplitude', rtol=tol)
            c.check(np.max(np.abs(wrap(p1 - p - (np.pi if s < 0 else 0)))) < tol, f'signal:{kind} phase', f'{p1} {p}')
        if kind == 'swap':
            o = rng.permutation(ns)
            v1, p1 = arg(x[:, o])
            c.near(v1, v[o], 'signal:order of the signals, amplitude', rtol=1e-5)
            c.check(np.max(np.abs(wrap(p1 - p[o]))) < 1e-4, 'signal:order of the signals, phase', '')
        if kind == 'list':
            keep = x.copy()
            xx = x.copy()
            v1, p1 = arg(xx.tolist())
            arg(xx)
            c.check(np.array_equal(xx, keep), 'signal:input modified', '')
            c.near(v1, v, 'signal:list input', rtol=1e-5)
        if kind == 'quiet':
            v1, p1 = arg(np.ones((n, 2)) * rng.normal(0, 5, 2))
            c.check(np.max(np.abs(v1)) < 1e-3, 'signal:constant signal has an amplitude', str(v1))
        if kind == 'second' and whole and P >= 6:
            # a second carrier with a whole number of periods, at least 2 lines away
            cand = [k for k in range(1, n // 3) if abs(k - P) >= max(2, P / 4)]
            k = int(sp.pick(rng, cand))
            B = A * rng.uniform(0, 1, ns)
            v1, p1 = arg(x + B * np.cos(2 * np.pi * k / P * f * t[:, None] - rng.uniform(-3, 3, ns)))
            q = ba + (8.0 / n if not cum else 3.0 / min(abs(k - P), P)) + 10 * eps
            c.check(np.all(np.abs(v1 / A - 1) <= q), 'signal:neighbouring carrier leaks', f'{np.abs(v1 / A - 1).max():.3g} allowed {q:.3g} (line {k} vs {P})')


@CHECK.section('demodulator', quick=100, thorough=1500)
def demodulator(c):
    """windows, generation times, chosen modes and memory of the Demodulator over several windows of changing signals"""
    import numpy as np
    from harness import sp
    from specula.processing_objects.demodulator import Demodulator
    from specula.base_value import BaseValue
    rng, prec = c.rng, c.precision
    dt = float(sp.pick(rng, [0.001, 0.002, 0.0005, 0.01]))
    N = int(rng.integers(20, 200))
    nw = int(rng.integers(1, 4))
    nin = int(rng.integers(1, 9))
    nm = int(rng.integers(1, min(nin, 4) + 1))
    modes = rng.permutation(nin)[:nm]
    if rng.random() < 0.3:
        modes = np.sort(modes)
    per = [int(rng.integers(2, max(3, N // 4 + 1))) for _ in modes]
    fr = [p / (N * dt) for p in per]
    c.describe(dt=dt, N=N, nw=nw, nin=nin, modes=modes.tolist(), periods=per, prec=prec)
    par = sp.simul_params(time_step=dt)
    d = Demodulator(par, mode_numbers=modes.tolist(), carrier_frequencies=fr, demod_dt=N * dt)
    bv = BaseValue(value=np.zeros(nin))
    d.inputs['in_data'].set(bv)
    with sp.quiet():
        d.setup()
    ldt = par.seconds_to_t(dt) if hasattr(par, 'seconds_to_t') else int(round(dt * 1e9))
    amp, off = [], []
    for w in range(nw):
        amp.append(10 ** rng.uniform(-2, 2, nm))
        off.append(rng.normal(0, 3, nin) * 10 ** rng.uniform(-2, 1))
    ph = rng.uniform(-3, 3, nm)
    garbage = rng.normal(0, 30, (nw * N + 1, nin))
    outs, alone = [], []
    for k in range(nw * N + int(rng.integers(0, 5))):
        w = min(k // N, nw - 1)
        x = garbage[k % len(garbage)].copy()
        for i, m in enumerate(modes):
            x[m] = off[w][m] + amp[w][i] * np.cos(2 * np.pi * fr[i] * k * dt - ph[i])
        bv.value = x.astype(bv.dtype) if rng.random() < 0.5 else np.array(x, dtype=bv.dtype)
        bv.generation_time = k * ldt
        with sp.quiet():
            sp.step(d, k * ldt)
        o = d.outputs['output']
        done = (k + 1) // N
        want_t = (done * N - 1) * ldt if done else -1
        if done == 0:
            c.check(o.generation_time < 0, 'demodulator:published before the window was over', f'{o.generation_time} at {k * ldt}')
        else:
            c.eq(o.generation_time, want_t, 'demodulator:generation time')
        if done and (k + 1) % N == 0:
            outs.append(np.array(o.value, dtype=float))
            c.saw('window demodulated')
            got = outs[-1]
            if not c.check(got.shape == (nm,), 'demodulator:one value per mode', f'{got.shape}'):
                return
            for i in range(nm):
                ba, _ = bounds(per[i], N, True)
                big = abs(off[w][modes[i]]) / amp[w][i] * (1e-6 if prec == 1 else 1e-9) * 10
                c.check(abs(got[i] / amp[w][i] - 1) <= ba + 1e-3 + big, 'demodulator:amplitude', f'window {w}, mode {modes[i]}: {got[i]:.5g}, truth {amp[w][i]:.5g}, allowed {ba:.3g}')
        elif done:
            c.check(np.array_equal(outs[-1], np.asarray(o.value, dtype=float)), 'demodulator:output changed inside a window', '')
    # the last window alone, by a new object, at the same times: bit for bit the same
    if nw > 1:
        d2 = Demodulator(par, mode_numbers=modes.tolist(), carrier_frequencies=fr, demod_dt=N * dt)
        bv2 = BaseValue(value=np.zeros(nin))
        d2.inputs['in_data'].set(bv2)
        with sp.quiet():
            d2.setup()
            for k in range((nw - 1) * N, nw * N):
                x = rng.normal(0, 5, nin)
                for i, m in enumerate(modes):
                    x[m] = off[nw - 1][m] + amp[nw - 1][i] * np.cos(2 * np.pi * fr[i] * k * dt - ph[i])
                bv2.value = np.array(x, dtype=bv2.dtype)
                bv2.generation_time = k * ldt
                sp.step(d2, k * ldt)
        c.near(d2.outputs['output'].value, outs[nw - 1], 'demodulator:earlier windows or other modes matter', rtol=1e-5)


@CHECK.section('optical_gain', quick=200, thorough=3000)
def optical_gain(c):
    """closed tracking loop with a known optical gain: exact recursion, convergence, cap of the output, behaviour with stale or zero commands"""
    import numpy as np
    from harness import sp
    from specula.processing_objects.optical_gain_estimator import OpticalGainEstimator
    from specula.base_value import BaseValue
    rng, prec = c.rng, c.precision
    g = float(rng.uniform(0.02, 1.5))
    init = float(sp.pick(rng, [1.0, 1, 0.5, float(rng.uniform(0.1, 2))]))
    true = float(rng.uniform(0.05, 1.8))
    n = int(rng.integers(1, 40))
    odd = sp.pick(rng, ['none', 'stale', 'zero', 'mixed'])
    c.describe(g=g, init=init, true=true, n=n, odd=odd, prec=prec)
    o = OpticalGainEstimator(gain=g, initial_optical_gain=init)
    dc, cm = BaseValue(value=np.zeros(1)), BaseValue(value=np.zeros(1))
    o.inputs['in_demod_delta_command'].set(dc)
    o.inputs['in_demod_command'].set(cm)
    with sp.quiet():
        o.setup()
    o.verbose = bool(rng.random() < 0.3)
    est, gt = init, -1
    tol = 1e-9 if prec == 0 else 1e-4
    steps = 0
    for k in range(n):
        t = k * 1000
        A = float(10 ** rng.uniform(-3, 3)) * (1 if rng.random() < 0.8 else -1)
        what = sp.pick(rng, ['both', 'both', odd])
        if what == 'mixed':
            what = sp.pick(rng, ['stale', 'zero'])
        if what == 'zero':
            A = 0.0
        cm.value = np.array([A], dtype=cm.dtype)
        dc.value = np.array([A * true / est], dtype=dc.dtype)
        one = rng.random() < 0.5
        if what != 'stale' or one:
            cm.generation_time = t
        if what != 'stale' or not one:
            dc.generation_time = t
        with sp.quiet():
            ran = sp.step(o, t)
        if not c.check(ran, 'optical gain:did not run', ''):
            return
        if what in ('both', 'none'):
            est = est - (1 - true / est) * g * est
            gt = t
            steps += 1
            c.saw('gain updated')
        og = np.asarray(o.outputs['optical_gain'].value, dtype=float)
        c.near(og, [est], f'optical gain:{"recursion" if what in ("both", "none") else "changed without a new pair of measurements"}', rtol=tol, atol=tol)
        c.near(o.outputs['output'].value, [min(est, 1.0)], 'optical gain:output is not capped at one', rtol=tol, atol=tol)
        c.eq(o.outputs['output'].generation_time, t, 'optical gain:output time')
        if gt >= 0:
            c.eq(o.outputs['optical_gain'].generation_time, gt, 'optical gain:time of the last update')
        est = float(og[0]) if abs(float(og[0]) - est) < 1e-3 * abs(est) else est
    err = abs(1 - g) ** steps * abs(init - true)
    c.check(abs(est - true) <= err * (1 + 1e-3) + 50 * tol, 'optical gain:does not converge to the truth', f'{est} truth {true} after {steps} steps, gain {g}')


@CHECK.section('tracking', quick=24, thorough=300)
def tracking(c):
    """complete chain: probe signal on one mode of a linear sensor with a known, changing optical gain -> two Demodulators -> estimator -> compensation of the measurement"""
    import numpy as np
    from harness import sp
    from specula.processing_objects.demodulator import Demodulator
    from specula.processing_objects.optical_gain_estimator import OpticalGainEstimator
    from specula.base_value import BaseValue
    rng, prec = c.rng, c.precision
    dt = 0.001
    N = int(rng.integers(40, 120))
    P = int(rng.integers(4, N // 5))
    nin, m = int(rng.integers(1, 7)), 0
    m = int(rng.integers(0, nin))
    g = float(rng.uniform(0.3, 1.0))
    nw = int(rng.integers(4, 12))
    true = float(rng.uniform(0.2, 1.0))
    drift = float(rng.choice([0, 0, 0.02]))
    c.describe(N=N, P=P, nin=nin, m=m, g=g, nw=nw, true=true, drift=drift, prec=prec)
    par = sp.simul_params(time_step=dt)
    mk = lambda: Demodulator(par, mode_numbers=[m], carrier_frequencies=[P / (N * dt)], demod_dt=N * dt)
    d1, d2 = mk(), mk()
    delta, comm = BaseValue(value=np.zeros(nin)), BaseValue(value=np.zeros(nin))
    d1.inputs['in_data'].set(delta)
    d2.inputs['in_data'].set(comm)
    o = OpticalGainEstimator(gain=g, initial_optical_gain=1.0)
    o.inputs['in_demod_delta_command'].set(d1.outputs['output'])
    o.inputs['in_demod_command'].set(d2.outputs['output'])
    with sp.quiet():
        for x in (d1, d2, o):
            x.setup()
    A, ph, est, ref = float(10 ** rng.uniform(-1, 2)), float(rng.uniform(-3, 3)), 1.0, 1.0
    for k in range(N * nw):
        t = k * int(round(dt * 1e9))
        tr = true * (1 + drift * (k // N))
        x = rng.normal(0, 1, nin)
        x[m] = A * np.cos(2 * np.pi * P / N * k - ph)
        comm.value = np.array(x, dtype=comm.dtype)
        delta.value = np.array(x * tr / est, dtype=delta.dtype)
        comm.generation_time = delta.generation_time = t
        with sp.quiet():
            for ob in (d1, d2, o):
                sp.step(ob, t)
        if (k + 1) % N == 0:
            ref = ref * (1 - g * (1 - tr / ref))
            c.saw('window tracked')
            got = float(o.outputs['optical_gain'].value[0])
            c.near(got, ref, 'tracking:estimate', rtol=1e-3 if prec == 1 else 1e-6)
            est = got
        c.near(float(o.outputs['optical_gain'].value[0]), est, 'tracking:estimate changed inside a window', rtol=1e-12)
    if drift == 0:
        c.check(abs(est - true) <= abs(1 - g) ** nw * (1 - true) + 2e-3, 'tracking:does not converge', f'{est} {true}')


def loop_roots(num, den, g, d):
    """poles of the loop closed around g*num/den and d steps of delay (coefficients oldest first)"""
    import numpy as np
    b, a = np.asarray(num)[::-1], np.asarray(den)[::-1]
    a = np.concatenate([a, np.zeros(d)])
    b = np.concatenate([np.zeros(len(a) - len(b)), b])
    return np.roots(np.trim_zeros(a + g * b, 'f'))


@CHECK.section('optimizer', quick=60, thorough=700)
def optimizer(c):
    """real filters closed in a loop with disturbance and noise: every published gain is in the stable range, at the right times, and minimises the residual variance"""
    import numpy as np
    from scipy import signal as ss
    from harness import sp
    from specula.processing_objects.gain_optimizer import GainOptimizer
    from specula.data_objects.iir_filter_data import IirFilterData
    from specula.base_value import BaseValue
    from checks.c12 import rand_controller
    rng, prec = c.rng, c.precision
    while True:
        num, den, kinds = rand_controller(c, rng)
        if 'proper' not in kinds:
            break
    nm = len(num)
    # `kinds` are widened to a common length, oldest first
    ordn = [int(num.shape[1] - np.nonzero(r)[0][0]) for r in num]
    ordd = [int(den.shape[1] - np.nonzero(r)[0][0]) for r in den]
    dt = float(sp.pick(rng, [0.001, 0.002]))
    delay = int(rng.integers(1, 4))
    nopt = int(rng.integers(24, 300))
    rounds = int(rng.integers(1, 4))
    fac, safe, inc = float(rng.uniform(0.5, 0.99)), float(rng.uniform(0.5, 1.0)), float(rng.uniform(0.1, 1.0))
    lim, rm, ng = bool(rng.random() < 0.6), bool(rng.random() < 0.4), int(rng.integers(2, 25))
    og = bool(rng.random() < 0.3)
    c.describe(kinds=kinds, num=num.tolist(), den=den.tolist(), dt=dt, delay=delay, nopt=nopt, rounds=rounds, fac=fac, safe=safe, inc=inc, lim=lim, rm=rm, ng=ng, og=og, prec=prec)
    with sp.quiet():
        iir = IirFilterData(ordn, ordd, num.copy(), den.copy())
        g0 = np.array(iir.gain, dtype=float)
        par = sp.simul_params(time_step=dt)
        o = GainOptimizer(par, iir, opt_dt=nopt * dt, delay=delay, max_gain_factor=fac, safety_factor=safe, max_inc=inc, limit_inc=lim, ngains=ng, running_mean=rm, verbose=bool(rng.random() < 0.1))
        dl, cm, ogv = BaseValue(value=np.zeros(nm)), BaseValue(value=np.zeros(nm)), BaseValue(value=np.ones(1))
        o.inputs['delta_comm'].set(dl)
        o.inputs['out_comm'].set(cm)
        if og:
            o.inputs['optical_gain'].set(ogv)
        o.setup()
        gmax = np.array([np.asarray(iir.max_stable_gain(mode=i, delay=delay, max_gain=20.0, n_gain=20000), dtype=float) for i in range(nm)]).ravel()
    nn = num / g0[:, None]
    # own stability limit, by the poles
    for i in range(nm):
        if gmax[i] < 19.9:
            inside = np.max(np.abs(loop_roots(nn[i], den[i], gmax[i] * 0.99, delay)))
            c.check(inside < 1 + 1e-3, 'optimizer:limit is not stable', f'mode {i} {kinds[i]} gain {gmax[i]} pole {inside}')
    T = nopt * rounds + int(rng.integers(1, 6))
    tt = np.arange(T)
    fdist = rng.uniform(0.001, 0.1, nm)
    dist = rng.uniform(0, 3, nm) * np.sin(2 * np.pi * fdist * tt[:, None] + rng.uniform(0, 6, nm)) + np.cumsum(rng.normal(0, 1, (T, nm)), axis=0) * 10 ** rng.uniform(-2, 0, nm)
    # character of the disturbance changes between optimisations
    late = (tt >= nopt)[:, None] * rng.normal(0, 1, (T, nm)) * 10 ** rng.uniform(-1, 2, nm)
    noise = rng.normal(0, 1, (T, nm)) * 10 ** rng.uniform(-2, 1, nm)
    # gentle loop run by the harness: comm = 0.2-gain integrator with one step delay
    comm, ctrl = np.zeros((T, nm)), np.zeros(nm)
    delta = np.zeros((T, nm))
    dtp = dl.dtype
    ldt = int(round(dt * 1e9))
    prev, pub, psd_prev, nps = g0.copy(), -1, [None] * nm, None
    ogs = []
    for k in range(T):
        back = comm[k - 1] if k else 0
        delta[k] = dist[k] + late[k] + noise[k] - back
        ctrl = ctrl + 0.2 * delta[k]
        comm[k] = ctrl
        dl.value, cm.value = np.array(delta[k], dtype=dtp), np.array(comm[k], dtype=dtp)
        dl.generation_time = cm.generation_time = k * ldt
        if og:
            ogs.append(float(rng.uniform(0.5, 1.0)) if rng.random() < 0.7 or not ogs else ogs[-1])
            ogv.value = np.array([ogs[-1]], dtype=dtp)
            ogv.generation_time = k * ldt
        with sp.quiet():
            sp.step(o, k * ldt)
        out = o.outputs['optimized_gain']
        due = k >= nopt and k % nopt == 0
        if due:
            pub = k * ldt
        c.check(out.generation_time == pub or (pub < 0 and out.generation_time < 0), 'optimizer:generation time', f'{out.generation_time} expected {pub}')
        if not due:
            continue
        c.saw('gains optimised', nm)
        got = np.array(out.value, dtype=float)
        if not c.check(got.shape == (nm,) and np.all(np.isfinite(got)), 'optimizer:values', f'{got}'):
            return
        c.near(iir.gain, got, 'optimizer:gain not given to the filter', rtol=1e-6)
        c.near(np.asarray(iir.num, dtype=float), nn * got[:, None], 'optimizer:filter numerator', rtol=1e-5, atol=1e-7)
        c.near(np.asarray(iir.den, dtype=float), den, 'optimizer:filter denominator changed', rtol=1e-6, atol=1e-7)
        for i in range(nm):
            c.check(0 < got[i] <= fac * gmax[i] * (1 + 1e-4), 'optimizer:gain outside the stable range', f'mode {i} {kinds[i]}: {got[i]} > {fac} x {gmax[i]}')
            if gmax[i] < 19.9:
                r = np.max(np.abs(loop_roots(nn[i], den[i], got[i], delay)))
                c.check(r < 1 + 1e-4, 'optimizer:closed loop unstable', f'mode {i} {kinds[i]} gain {got[i]} pole {r}')
            # residual variance curve
            pol = np.concatenate([[delta[0, i]], comm[:k, i] + delta[1:k + 1, i]])
            if nps is None:
                nps = min(k + 1, 256)
            fq, psd = ss.welch(pol, fs=1 / dt, window='hann', nperseg=nps)
            variants = [psd]
            if rm and psd_prev[i] is not None:
                variants = [psd + q for q in psd_prev[i]]
            psd_prev[i] = [psd, psd / 2] if psd_prev[i] is None else [v / 2 for v in variants]
            z = np.exp(2j * np.pi * fq * dt)
            L = np.polyval(nn[i][::-1], z) / np.where(np.abs(np.polyval(den[i][::-1], z)) < 1e-9, 1e-9, np.polyval(den[i][::-1], z)) * z ** (-delay)
            lo = fac * gmax[i]
            cand = np.linspace(lo / ng, lo, ng)
            ok = False
            for v in variants:
                cost = np.array([np.sum(v / np.abs(1 + q * L) ** 2) for q in cand])
                good = cand[cost <= cost.min() * (1.003 if prec == 0 else 1.02)]
                raw = prev[i] + inc * (good - prev[i]) if lim else good
                if len(ogs) > 1:
                    # the gain follows the change of optical gain since the previous frame
                    raw = raw * (ogs[-1] / ogs[-2])
                want = np.minimum(raw * safe, lo)
                ok = ok or np.any(np.abs(want - got[i]) <= 2e-3 * lo)
            c.check(ok, 'optimizer:gain does not minimise the residual variance', f'mode {i} {kinds[i]}: {got[i]} not in {want} (limit {lo}, previous {prev[i]})')
        prev = got
