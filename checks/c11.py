"""C11: temporal control filters obey their difference equation, delay and gain modulation."""
from harness.vf import CheckDef
CHECK = CheckDef('C11', rule=(
    'Each case builds a random filter object (IIR, integrator, low-pass, state-space or their dynamic variants) with random '
    'coefficients, mode grouping, integer/fractional delay, gain modulation and refresh schedule, drives it 12-40 steps through the '
    'public step protocol and compares every published output with an independent per-mode recursion. Non-trivial: at least one '
    'step with non-zero expected output was compared; distinct by configuration.'),
    assumptions=['time-varying gain modulation is compared only for single-tap numerators (its meaning for longer ones is not documented)'])


def stable_den(rng, n):
    """monic-in-current-sample denominator, lowest delay last: den[-1] y[k] + den[-2] y[k-1] + ..."""
    import numpy as np
    roots = []
    while len(roots) < n:
        if n - len(roots) >= 2 and rng.random() < 0.4:
            r, th = rng.uniform(0.1, 0.9), rng.uniform(0.1, 3)
            roots += [r * np.exp(1j * th), r * np.exp(-1j * th)]
        else:
            roots.append(rng.uniform(-0.9, 0.95))
    a = np.real(np.poly(roots)) if n else np.array([1.0])   # a[0] y[k] + a[1] y[k-1] ...
    return a


def ref_filter(num, den, us, gains, integration=True, reset_at=(), gain_fn=None):
    """num/den stored oldest sample first.  us[k], gains[k] vectors.  Returns y[k]."""
    import numpy as np
    nf = num.shape[0]
    Y = []
    uh = [np.zeros(nf) for _ in range(num.shape[1])]
    yh = [np.zeros(nf) for _ in range(den.shape[1])]
    for k, u in enumerate(us):
        if k in reset_at:
            uh = [np.zeros(nf) for _ in uh]
            yh = [np.zeros(nf) for _ in yh]
        nk = gain_fn(k) if gain_fn else num
        uh = [np.asarray(u, float)] + uh[:-1]
        acc = np.zeros(nf)
        for i in range(nk.shape[1]):
            acc += nk[:, -1 - i] * gains[k] * uh[i]
        if integration:
            for i in range(1, den.shape[1]):
                acc -= den[:, -1 - i] * yh[i - 1]
        y = acc / den[:, -1]
        yh = [y] + yh[:-1]
        Y.append(y)
    return Y


def delayed(Y, d, reset_at=()):
    import numpy as np
    out = []
    lo, hi, r = int(np.floor(d)), int(np.ceil(d)), d - np.floor(d)
    start = 0
    for k in range(len(Y)):
        if k in reset_at:
            start = k
        g = lambda j: Y[j] if j >= start else np.zeros_like(Y[0])
        out.append((1 - r) * g(k - lo) + r * g(k - hi))
    return out


def rand_delay(rng):
    import numpy as np
    c = rng.integers(5)
    if c == 0:
        return 0
    if c == 1:
        return int(rng.integers(1, 5))
    if c == 2:
        return float(rng.integers(1, 4))
    return round(float(rng.uniform(0.05, 4.5)), 3)


def drive(c, obj, us, gains, Y, delay, gain_mod=None, sched=None, reset_at=(), extra=None, key='', tol=None):
    """Drive obj with us (one per triggered step) over a schedule with idle steps; compare."""
    import numpy as np
    from harness import sp
    dt = 1_000_000
    inp = sp.val(np.array(us[0], dtype=obj.dtype))
    obj.inputs['delta_comm'].set(inp)
    gm = None
    if gain_mod:
        gm = sp.val(np.array(gains[0], dtype=obj.dtype))
        obj.inputs['gain_mod'].set(gm)
    ins = {}
    for name in (extra or {}):
        ins[name] = sp.val(np.zeros(1))
        obj.inputs[name].set(ins[name])
    obj.setup()
    E = delayed(Y, delay, reset_at)
    scale = max(np.max(np.abs(Y)), 1e-12)
    tol = tol or (1e-10 if c.precision == 0 else 3e-4)
    k = 0
    t = 0
    while k < len(us):
        idle = sched is not None and c.rng.random() < 0.25
        if not idle:
            inp.value = np.array(us[k], dtype=obj.dtype)
            inp.generation_time = t
            if gm is not None:
                gm.value = np.array(gains[k], dtype=obj.dtype)
                gm.generation_time = t
            for name, fn in (extra or {}).items():
                v = fn(k)
                if v is not None:
                    ins[name].value = v
                    ins[name].generation_time = t
        before = sp.arr(obj.outputs['out_comm'].value)
        tb = obj.outputs['out_comm'].generation_time
        sp.step(obj, t)
        out = sp.arr(obj.outputs['out_comm'].value)
        if idle:
            c.saw('idle_steps')
            ok = c.eq(out, before, key + ':idle-output-changed', f'output changed at a step with no refreshed input (t={t})')
            ok &= c.check(obj.outputs['out_comm'].generation_time == tb, key + ':idle-time-changed')
        else:
            c.saw('filter_steps')
            ok = c.near(out, E[k], key + ':delayed-output', rtol=tol, scale=scale, step=k)
            ok &= c.near(sp.arr(obj.outputs['out_comm_no_delay'].value), Y[k], key + ':undelayed-output', rtol=tol, scale=scale, step=k)
            ok &= c.check(obj.outputs['out_comm'].generation_time == t and obj.outputs['out_comm_no_delay'].generation_time == t,
                          key + ':generation-time')
            k += 1
        if not ok:
            return
        t += dt


def gains_for(rng, nf, nsteps, allow_varying):
    import numpy as np
    m = rng.integers(4)
    if m == 0:
        return None, [np.ones(nf)] * nsteps, [None] * nsteps
    if m == 1:
        g = float(rng.uniform(0.2, 1.5))
        return 'scalar', [np.full(nf, g)] * nsteps, [np.array([g])] * nsteps
    if m == 2 or not allow_varying:
        g = rng.uniform(0.2, 1.5, nf)
        return 'vector', [g] * nsteps, [g] * nsteps
    gs = [rng.uniform(0, 1.5, nf) for _ in range(nsteps)]
    return 'varying', gs, gs


@CHECK.section('iir', quick=160, thorough=2400, precisions=(0, 1))
def iir(c):
    import numpy as np
    from harness import sp
    from specula.data_objects.iir_filter_data import IirFilterData
    from specula.processing_objects.iir_filter import IirFilter
    rng = c.rng
    nf = int(rng.integers(1, 7))
    L = int(rng.integers(1, 6))
    nn = int(rng.integers(1, L + 1))
    nd = int(rng.integers(1, L + 1))
    same = rng.random() < 0.7
    Ln, Ld = (L, L) if same else (nn, nd)
    num = np.zeros((nf, Ln)); den = np.zeros((nf, Ld))
    for i in range(nf):
        b = rng.normal(size=nn)
        b[0] = rng.uniform(0.1, 1)      # current-sample tap non zero
        num[i, Ln - nn:] = b[::-1]
        a = stable_den(rng, nd - 1) * rng.uniform(0.5, 2)
        den[i, Ld - nd:] = a[::-1]
    delay = rand_delay(rng)
    integ = bool(rng.random() < 0.8)
    nst = int(rng.integers(12, 40))
    us = [rng.normal(size=nf) * 10 ** rng.uniform(-2, 2) for _ in range(nst)]
    gm, gref, gin = gains_for(rng, nf, nst, nn == 1)
    c.describe(nf=nf, taps=(nn, nd), width=(Ln, Ld), delay=delay, integration=integ, gain_mod=gm, num=num, den=den, steps=nst)
    fd = IirFilterData([nn] * nf, [nd] * nf, num, den, target_device_idx=-1)
    f = IirFilter(sp.simul_params(), fd, delay=delay, integration=integ, target_device_idx=-1)
    Y = ref_filter(num, den, us, gref, integ)
    drive(c, f, us, gin, Y, delay, gm, sched=True, key='iir')


@CHECK.section('iir_grouped', quick=60, thorough=600)
def iir_grouped(c):
    """n_modes expansion: block i of the coefficients drives n_modes[i] consecutive modes."""
    import numpy as np
    from harness import sp
    from specula.data_objects.iir_filter_data import IirFilterData
    from specula.processing_objects.iir_filter import IirFilter
    rng = c.rng
    ng = int(rng.integers(1, 4))
    nm = [int(x) for x in rng.integers(1, 5, ng)]
    L = int(rng.integers(2, 4))
    num = np.zeros((ng, L)); den = np.zeros((ng, L))
    for i in range(ng):
        num[i] = rng.normal(size=L)
        den[i] = stable_den(rng, L - 1)[::-1]
    fd = IirFilterData([L] * ng, [L] * ng, num, den, n_modes=nm, target_device_idx=-1)
    num, den = np.repeat(num, nm, 0), np.repeat(den, nm, 0)
    nf = sum(nm)
    delay = rand_delay(rng)
    us = [rng.normal(size=nf) for _ in range(20)]
    gm, gref, gin = gains_for(rng, nf, 20, False)
    c.describe(n_modes=nm, L=L, delay=delay, gain_mod=gm, num=num)
    f = IirFilter(sp.simul_params(), fd, delay=delay, target_device_idx=-1)
    drive(c, f, us, gin, ref_filter(num, den, us, gref), delay, gm, sched=True, key='iir-grouped')


@CHECK.section('integrator', quick=160, thorough=2400, precisions=(0, 1))
def integrator(c):
    import numpy as np
    from harness import sp
    from specula.processing_objects.integrator import Integrator
    rng = c.rng
    ng = int(rng.integers(1, 5))
    grouped = rng.random() < 0.6
    nm = [int(x) for x in rng.integers(1, 5, ng)] if grouped else None
    gain = [float(x) for x in rng.uniform(0.05, 1.2, ng)]
    ffmode = rng.integers(3)
    ff = None if ffmode == 0 else [float(x) for x in rng.uniform(0.5, 1.0, ng)]
    if ffmode == 2 and not grouped:
        ff = ff[:1]
    delay = rand_delay(rng)
    integ = bool(rng.random() < 0.85)
    rep = nm if grouped else [1] * ng
    g = np.repeat(gain, rep)
    p = np.ones(len(g)) if ff is None else np.repeat(ff if len(ff) == ng else ff * ng, rep)
    nf = len(g)
    nst = int(rng.integers(12, 40))
    us = [rng.normal(size=nf) for _ in range(nst)]
    if rng.random() < 0.15 and nf > 1:
        us = [np.full(nf, rng.normal()) for _ in range(nst)]
        inp_scalar = True
    else:
        inp_scalar = False
    gm, gref, gin = gains_for(rng, nf, nst, True)
    c.describe(n_modes=nm, gain=gain, ff=ff, delay=delay, integration=integ, gain_mod=gm, broadcast=inp_scalar)
    f = Integrator(sp.simul_params(), int_gain=gain, ff=ff, n_modes=nm, delay=delay, integration=integ, target_device_idx=-1)
    Y, y = [], np.zeros(nf)
    for k in range(nst):
        y = (p * y if integ else 0) + g * gref[k] * us[k]
        Y.append(y)
    feed = [u[:1] for u in us] if inp_scalar else us
    drive(c, f, feed, gin, Y, delay, gm, sched=True, key='integrator')


@CHECK.section('dynamic', quick=80, thorough=1000, precisions=(0, 1))
def dynamic(c):
    """run-time gain changes and resets take effect at the step they arrive, and only then"""
    import numpy as np
    from harness import sp
    from specula.processing_objects.dynamic_integrator import DynamicIntegrator
    from specula.processing_objects.dynamic_iir_filter import DynamicIirFilter
    from specula.data_objects.iir_filter_data import IirFilterData
    rng = c.rng
    nf = int(rng.integers(1, 6))
    kind = sp.pick(rng, ['integrator', 'iir'])
    delay = rand_delay(rng)
    nst = int(rng.integers(15, 35))
    us = [rng.normal(size=nf) for _ in range(nst)]
    resets = {int(k) for k in rng.integers(1, nst, rng.integers(0, 3))}
    upd = {int(k): (float(rng.uniform(0.1, 1)) if kind == 'integrator' or rng.random() < 0.4 else rng.uniform(0.1, 1, nf))
           for k in rng.integers(1, nst, rng.integers(0, 4))}
    g0 = rng.uniform(0.2, 0.9, nf)
    ff = rng.uniform(0.7, 1, nf)
    c.describe(kind=kind, nf=nf, delay=delay, resets=sorted(resets), updates={k: v for k, v in upd.items()}, gain=g0, ff=ff)
    P = sp.simul_params()
    if kind == 'integrator':
        f = DynamicIntegrator(P, int_gain=list(g0), ff=list(ff), delay=delay, target_device_idx=-1)
        num = np.stack([np.zeros(nf), g0], 1); den = np.stack([-ff, np.ones(nf)], 1)
    else:
        num = np.stack([rng.normal(size=nf), np.ones(nf)], 1) * g0[:, None]
        den = np.stack([-ff, np.ones(nf)], 1)
        f = DynamicIirFilter(P, IirFilterData([2] * nf, [2] * nf, num, den, target_device_idx=-1), delay=delay, target_device_idx=-1)
    base = num / num[:, -1:]

    def gain_at(k):
        g = g0
        for j in range(k + 1):
            if j in upd:
                g = np.full(nf, upd[j]) if np.isscalar(upd[j]) else upd[j]
        return base * np.asarray(g)[:, None]
    Y = ref_filter(num, den, us, [np.ones(nf)] * nst, reset_at=resets, gain_fn=gain_at)
    extra = {'reset': lambda k: 1 if k in resets else None,
             'int_gain': lambda k: upd.get(k)}
    drive(c, f, us, [None] * nst, Y, delay, None, reset_at=resets, extra=extra, key='dynamic-' + kind)


@CHECK.section('lowpass', quick=50, thorough=500, precisions=(0, 1))
def lowpass(c):
    import numpy as np
    from scipy import signal
    from harness import sp
    from specula.processing_objects.low_pass_filter import LowPassFilter
    rng = c.rng
    nf = int(rng.integers(1, 4))
    dt = float(sp.pick(rng, [0.001, 0.002, 0.0005]))
    fs = 1 / dt
    fc = rng.uniform(0.02, 0.42, nf) * fs
    kind = sp.pick(rng, ['order', 'order', 'ampl', 'default'])
    delay = rand_delay(rng)
    kw = {}
    B, A = [], []
    if kind == 'ampl':
        amp = float(rng.uniform(0.4, 3)); kw['amplif_fact'] = amp
        for f0 in fc:
            # 2nd order resonant low pass H(s)=1/(s^2+s/Q+1), bilinear with prewarping at f0
            w = np.tan(np.pi * f0 / fs)
            b, a = signal.bilinear([w * w], [1, w / amp, w * w], fs=0.5)
            B.append(b); A.append(a)
    else:
        n = 2 if kind == 'default' else int(sp.pick(rng, [1, 2, 4]))
        if kind == 'order':
            kw['n_ord'] = n
        for f0 in fc:
            b, a = signal.butter(n, f0 / (fs / 2))
            B.append(b); A.append(a)
    nst = 40
    us = [rng.normal(size=nf) for _ in range(nst)]
    c.describe(kind=kind, fc=fc, dt=dt, delay=delay, **kw)
    f = LowPassFilter(sp.simul_params(time_step=dt), cutoff_freq=fc if nf > 1 else float(fc[0]), delay=delay, target_device_idx=-1, **kw)
    U = np.array(us)
    Y = np.stack([signal.lfilter(B[i], A[i], U[:, i]) for i in range(nf)], 1)
    drive(c, f, us, [None] * nst, list(Y), delay, None, sched=True, key='lowpass', tol=1e-8 if c.precision == 0 else 2e-3)


@CHECK.section('ssr', quick=100, thorough=1200, precisions=(0, 1))
def ssr(c):
    import numpy as np
    from harness import sp
    from specula.processing_objects.ssr_filter import SsrFilter
    from specula.data_objects.ssr_filter_data import SsrFilterData
    rng = c.rng
    form = sp.pick(rng, ['list', 'n_modes', 'full', 'integrator', 'gain'])
    ng = int(rng.integers(1, 5))
    reps = [1] * ng
    A, B, C, D = [], [], [], []
    for i in range(ng):
        n = int(rng.integers(1, 4))
        M = rng.normal(size=(n, n)); M *= 0.8 / max(1e-9, np.max(np.abs(np.linalg.eigvals(M))))
        A.append(M); B.append(rng.normal(size=(n, 1))); C.append(rng.normal(size=(1, n))); D.append(rng.normal(size=(1, 1)))
    newst = bool(rng.random() < 0.6)
    if form == 'list' and ng > 1:
        fd = SsrFilterData(A, B, C, D, target_device_idx=-1)
    elif form in ('n_modes', 'list'):
        reps = [int(x) for x in rng.integers(1, 4, ng)]
        fd = SsrFilterData(A, B, C, D, n_modes=reps, target_device_idx=-1)
    elif form == 'full':
        from scipy.linalg import block_diag
        fd = SsrFilterData(block_diag(*A), block_diag(*B), block_diag(*C), block_diag(*D), target_device_idx=-1)
    elif form == 'integrator':
        g = rng.uniform(0.1, 1, ng); ff = rng.uniform(0.6, 1, ng)
        fd = SsrFilterData.from_integrator(g, ff, target_device_idx=-1)
        newst = True
        A = [np.array([[f]]) for f in ff]; B = [np.array([[x]]) for x in g]; C = [np.ones((1, 1))] * ng; D = [np.zeros((1, 1))] * ng
    else:
        g = rng.uniform(0.1, 1, ng)
        fd = SsrFilterData.from_gain(g, target_device_idx=-1)
        A = [np.zeros((1, 1))] * ng; B = A; C = A; D = [np.array([[x]]) for x in g]
    idx = np.repeat(np.arange(ng), reps)
    nf = len(idx)
    delay = rand_delay(rng)
    nst = 25
    us = [rng.normal(size=nf) for _ in range(nst)]
    gm, gref, gin = gains_for(rng, nf, nst, True)
    c.describe(form=form, states=[a.shape[0] for a in A], reps=reps, delay=delay, new_state=newst, gain_mod=gm, A=A)
    f = SsrFilter(sp.simul_params(), fd, delay=delay, output_uses_new_state=newst, target_device_idx=-1)
    xs = [np.zeros(A[i].shape[0]) for i in idx]
    Y = []
    for k in range(nst):
        y = np.zeros(nf)
        for m, i in enumerate(idx):
            u = us[k][m] * gref[k][m]
            xn = A[i] @ xs[m] + B[i][:, 0] * u
            y[m] = C[i][0] @ (xn if newst else xs[m]) + D[i][0, 0] * u
            xs[m] = xn
        Y.append(y)
    drive(c, f, us, gin, Y, delay, gm, sched=True, key='ssr')


@CHECK.section('reset', quick=40, thorough=400)
def reset(c):
    """after reset_states a filter is indistinguishable from a fresh one"""
    import numpy as np
    from harness import sp
    from specula.processing_objects.integrator import Integrator
    from specula.processing_objects.ssr_filter import SsrFilter
    from specula.data_objects.ssr_filter_data import SsrFilterData
    rng = c.rng
    nf = int(rng.integers(1, 5)); delay = rand_delay(rng)
    kind = sp.pick(rng, ['integrator', 'ssr'])
    g = [float(x) for x in rng.uniform(0.1, 1, nf)]

    def mk():
        if kind == 'integrator':
            return Integrator(sp.simul_params(), int_gain=g, delay=delay, target_device_idx=-1)
        return SsrFilter(sp.simul_params(), SsrFilterData.from_integrator(g, target_device_idx=-1), delay=delay, target_device_idx=-1)
    a, b = mk(), mk()
    c.describe(kind=kind, nf=nf, delay=delay, gain=g)
    va, vb = sp.val(np.zeros(nf)), sp.val(np.zeros(nf))
    a.inputs['delta_comm'].set(va); b.inputs['delta_comm'].set(vb)
    a.setup(); b.setup()
    for k in range(int(rng.integers(1, 8))):
        sp.setval(va, rng.normal(size=nf), k * 1000); sp.step(a, k * 1000)
    a.reset_states()
    for k in range(20, 30):
        u = rng.normal(size=nf)
        sp.setval(va, u, k * 1000); sp.setval(vb, u, k * 1000)
        sp.step(a, k * 1000); sp.step(b, k * 1000)
        c.saw('filter_steps', 2)
        if not c.eq(a.outputs['out_comm'].value, b.outputs['out_comm'].value, 'reset:not-fresh'):
            return


@CHECK.section('sizes', quick=12, thorough=24)
def sizes(c):
    """a wrongly sized command or gain vector is refused, never silently truncated"""
    import numpy as np
    from harness import sp
    from specula.processing_objects.integrator import Integrator
    rng = c.rng
    nf = int(rng.integers(3, 8)); bad = int(sp.pick(rng, [nf - 1, nf + 1, 2, nf * 2]))
    which = sp.pick(rng, ['delta', 'gain'])
    c.describe(nf=nf, bad=bad, which=which, i=c.i)
    f = Integrator(sp.simul_params(), int_gain=[0.5] * nf, target_device_idx=-1)
    f.inputs['delta_comm'].set(sp.val(np.ones(bad if which == 'delta' else nf), 0))
    if which == 'gain':
        f.inputs['gain_mod'].set(sp.val(np.ones(bad), 0))

    def go():
        f.setup()
        sp.step(f, 0)
    if bad == nf:
        c.skip()
    c.raises(ValueError, go, 'sizes:not-refused')
