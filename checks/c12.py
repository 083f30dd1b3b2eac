"""C12: frequency responses, rejection, stability verdicts and designs agree with the loop the simulator runs."""
from harness.vf import CheckDef
CHECK = CheckDef('C12', rule=(
    'Each case builds random controllers (integrators, leaky integrators, multi-tap filters, padded and strictly proper filters), runs the real '
    'filter objects open loop or in a closed loop with a real delay and mirror dynamics, measures the impulse response, growth or ringing of the '
    'executed loop, and compares it with frequency_response/RTF/NTF/is_stable/max_stable_gain/stability_analysis, with the filter-design functions and '
    'with the control-library conversions. Non-trivial: a measured response or verdict was compared; distinct by controller and delay.'),
    assumptions=['loops within a few percent of the stability boundary are skipped: finite simulations cannot decide them',
                 'poles/zeros accessors are not judged (their convention is not documented)'])


def rand_controller(c, rng, n=None, widths=True):
    """lists (num, den) oldest-first, right aligned, one per mode, same width"""
    import numpy as np
    from harness import sp
    n = n or int(rng.integers(1, 4))
    W = int(rng.integers(2, 5))
    num, den = np.zeros((n, W)), np.zeros((n, W))
    kinds = []
    for i in range(n):
        kind = sp.pick(rng, ['int', 'leaky', 'pid', 'lead', 'proper', 'fir'])
        kinds.append(kind)
        g = float(rng.uniform(0.1, 0.9))
        if kind in ('int', 'leaky'):
            ff = 1.0 if kind == 'int' else float(rng.uniform(0.6, 0.999))
            b, a = [g], [1, -ff]
        elif kind == 'pid':
            b, a = [g, -g * float(rng.uniform(0.1, 0.8))], [1, -1.0]
        elif kind == 'lead':
            b, a = np.array([g, g * rng.uniform(-0.4, 0.4)]), np.poly([rng.uniform(0.5, 0.98), rng.uniform(-0.6, 0.6)])[:W]
            if len(a) < 3:
                a = [1, -0.7]
        elif kind == 'proper':
            b, a = [0, g], [1, -float(rng.uniform(0.5, 1.0))]
        else:
            b, a = [g, g * float(rng.uniform(-0.5, 0.5))], [1.0]
        b, a = list(b)[:W], list(a)[:W]
        num[i, W - len(b):] = b[::-1]
        den[i, W - len(a):] = a[::-1]
    return num, den, kinds


def trim(num, den):
    import numpy as np
    while num.shape[1] > 1 and np.all(num[:, 0] == 0):
        num = num[:, 1:]
    while den.shape[1] > 1 and np.all(den[:, 0] == 0):
        den = den[:, 1:]
    return num, den


def make(num, den):
    from specula.data_objects.iir_filter_data import IirFilterData
    return IirFilterData([num.shape[1]] * len(num), [den.shape[1]] * len(den), num, den, target_device_idx=-1)


def run_filter(f, us):
    """drive a real filter object; returns delayed and undelayed output sequences"""
    import numpy as np
    from harness import sp
    inp = sp.val(np.zeros(f._nfilter, dtype=f.dtype))
    f.inputs['delta_comm'].set(inp)
    f.setup()
    Y, Y0 = [], []
    for k, u in enumerate(us):
        inp.value = np.asarray(u, dtype=f.dtype)
        inp.generation_time = k
        sp.step(f, k)
        Y.append(sp.arr(f.outputs['out_comm'].value).astype(float).copy())
        Y0.append(sp.arr(f.outputs['out_comm_no_delay'].value).astype(float).copy())
    return np.array(Y), np.array(Y0)


def closed_loop(fd, total_delay, nsteps, plant=None, d=None):
    """e[k] = d[k] - m[k]; real IirFilter with delay total_delay-1; mirror sees the command one step later."""
    import numpy as np
    from harness import sp
    from specula.processing_objects.iir_filter import IirFilter
    P = sp.simul_params()
    f = IirFilter(P, fd, delay=total_delay - 1, target_device_idx=-1)
    n = fd.nfilter
    inp = sp.val(np.zeros(n, dtype=f.dtype))
    f.inputs['delta_comm'].set(inp)
    f.setup()
    p = None
    if plant is not None:
        p = IirFilter(P, plant, delay=0, target_device_idx=-1)
        pin = sp.val(np.zeros(n, dtype=f.dtype))
        p.inputs['delta_comm'].set(pin)
        p.setup()
    m = np.zeros(n)
    E, M = np.zeros((nsteps, n)), np.zeros((nsteps, n))
    dead = np.zeros(n, bool)
    for k in range(nsteps):
        dk = d[k] if d is not None else (np.ones(n) if k == 0 else np.zeros(n))
        e = dk - m
        dead |= np.abs(e) > 1e9
        e = np.where(dead, 0, e)
        E[k], M[k] = e, m
        E[k][dead] = np.inf
        inp.value = e.astype(f.dtype)
        inp.generation_time = k
        sp.step(f, k)
        y = sp.arr(f.outputs['out_comm'].value).astype(float)
        y = np.where(np.isfinite(y), y, 0)
        if p is not None:
            pin.value = y.astype(f.dtype)
            pin.generation_time = k
            sp.step(p, k)
            y = sp.arr(p.outputs['out_comm'].value).astype(float)
        m = np.array(y)
        if dead.all():
            E[k:] = np.inf
            break
    return E, M


def verdict(e):
    """'stable' / 'unstable' / None from an executed impulse response"""
    import numpy as np
    if not np.all(np.isfinite(e)):
        return 'unstable'
    n = len(e)
    a = np.max(np.abs(e[n // 3: 2 * n // 3]))
    b = np.max(np.abs(e[2 * n // 3:]))
    if b < 1e-5 * max(np.max(np.abs(e)), 1):
        return 'stable'
    if b < 0.5 * a:
        return 'stable'
    if b > 2 * a:
        return 'unstable'
    return None


def dft(x, freqs, fs):
    import numpy as np
    k = np.arange(len(x))
    return np.array([np.sum(x * np.exp(-2j * np.pi * f / fs * k)) for f in freqs])


def rand_delay(rng):
    if rng.random() < 0.5:
        return int(rng.integers(1, 5))
    return round(float(rng.uniform(1.05, 4.5)), 2)


@CHECK.section('open_loop', quick=70, thorough=800, precisions=(0, 1), timeout=600)
def open_loop(c):
    import numpy as np
    from harness import sp
    from specula.processing_objects.iir_filter import IirFilter
    rng = c.rng
    num, den, kinds = rand_controller(c, rng)
    for i, k in enumerate(kinds):     # decaying impulse responses only
        if k in ('int', 'pid', 'leaky', 'proper') and den.shape[1] >= 2:
            den[i, -2] = -float(rng.uniform(0.3, 0.95))
    fs = float(sp.pick(rng, [1000.0, 500.0, 1234.5]))
    c.describe(num=num.tolist(), den=den.tolist(), fs=fs)
    fd = make(num, den)
    N = 1800
    us = np.zeros((N, len(num)))
    us[0] = 1
    d = rand_delay(rng) - 1
    f = IirFilter(sp.simul_params(), fd, delay=d, target_device_idx=-1)
    Y, Y0 = run_filter(f, us)
    freq = np.sort(rng.uniform(0.001, 0.499, 12)) * fs
    tol = 1e-8 if c.precision == 0 else 2e-3
    dn, dd = fd.discrete_delay_tf(d)
    Hd = fd.frequency_response(dn, dd, fs, freq)
    for i in range(len(num)):
        H = fd.frequency_response(fd.num[i], fd.den[i], fs, freq)
        m0, m1 = dft(Y0[:, i], freq, fs), dft(Y[:, i], freq, fs)
        s = np.max(np.abs(m0))
        c.near(H, m0, 'frequency-response', rtol=tol, scale=s, mode=i, kind=kinds[i])
        c.near(H * Hd, m1, 'delay-response', rtol=tol, scale=s, mode=i, delay=d)
        c.saw('responses_measured', 2)


@CHECK.section('closed_loop', quick=60, thorough=700, precisions=(0, 1), timeout=900)
def closed(c):
    """RTF, NTF and stability verdict of the executed loop"""
    import numpy as np
    from harness import sp
    from specula.data_objects.iir_filter_data import IirFilterData
    rng = c.rng
    num, den, kinds = rand_controller(c, rng)
    n = len(num)
    if rng.random() < 0.3:       # controllers given with a wider denominator than numerator (or the opposite)
        num, den = trim(num, den)
    boost = float(sp.pick(rng, [1, 1, 1.5, 3]))
    num = num * boost
    fs = 1000.0
    delay = rand_delay(rng)
    fd = make(num, den)
    lpf = None
    if rng.random() < 0.4:
        fc = float(rng.uniform(100, 400))
        lpf = IirFilterData.lpf_from_fc([fc] * n, fs, n_ord=2, target_device_idx=-1)
    form = sp.pick(rng, ['dm', 'split'])
    c.describe(num=num.tolist(), den=den.tolist(), delay=delay, lpf=lpf is not None, form=form, kinds=kinds)
    nsteps = 900
    E, M = closed_loop(fd, delay, nsteps, lpf)
    freq = np.sort(rng.uniform(0.002, 0.498, 10)) * fs
    tol = 1e-6 if c.precision == 0 else 5e-3
    for i in range(n):
        v = verdict(E[:, i])
        if lpf is not None:
            if form == 'dm':
                nd, dd = fd.discrete_delay_tf(delay)
                nw, dm, dw = np.convolve(nd, sp.arr(lpf.num[i])), np.convolve(dd, sp.arr(lpf.den[i])), np.array([1.0])
            else:
                nd, dd = fd.discrete_delay_tf(delay)
                nw, dm, dw = np.convolve(nd, sp.arr(lpf.num[i])), dd, sp.arr(lpf.den[i])
        elif form == 'split' and delay >= 1:
            nw, dw = fd.discrete_delay_tf(delay - 1)
            dm = np.array([0.0, 1.0])
        else:
            nw, dm = fd.discrete_delay_tf(delay)
            dw = np.array([1.0])
        st = fd.is_stable(i, dm=dm, nw=nw, dw=dw)
        if v is None:
            c.saw('undecided_loops')
            continue
        c.saw(v + '_loops')
        c.check(bool(st) == (v == 'stable'), 'stability-verdict',
                f'is_stable says {st} but the executed loop is {v}', mode=i, kind=kinds[i], tail=E[-5:, i].tolist())
        tail = np.max(np.abs(E[-30:, i])) if v == 'stable' else 1
        if v == 'stable' and tail < 1e-8 * max(1, np.max(np.abs(E[:, i]))) if c.precision == 0 else (v == 'stable' and tail < 1e-5):
            r = fd.RTF(i, fs, freq=freq, dm=dm, nw=nw, dw=dw, plot=False)
            t = fd.NTF(i, fs, freq=freq, dm=dm, nw=nw, dw=dw, plot=False)
            mr, mt = np.abs(dft(E[:, i], freq, fs)), np.abs(dft(M[:, i], freq, fs))
            c.near(r, mr, 'RTF', rtol=tol, scale=np.max(mr), mode=i, kind=kinds[i])
            c.near(t, mt, 'NTF', rtol=tol, scale=max(np.max(mt), 1e-3), mode=i, kind=kinds[i])
            c.saw('closed_loop_responses', 2)


@CHECK.section('max_gain', quick=36, thorough=320, precisions=(0, 1), timeout=900)
def max_gain(c):
    import numpy as np
    from harness import sp
    from specula.data_objects.iir_filter_data import IirFilterData
    rng = c.rng
    num, den, kinds = rand_controller(c, rng, n=int(rng.integers(1, 3)))
    if rng.random() < 0.3:
        num, den = trim(num, den)
    delay = rand_delay(rng)
    fd = make(num, den)
    if rng.random() < 0.3:
        fd.set_gain(float(rng.uniform(0.2, 3)))
    allm = rng.random() < 0.4
    how = sp.pick(rng, ['delay', 'plant', 'lpf'])
    lpf = None
    kw = dict(delay=delay)
    if how != 'delay':
        nw, dm = fd.discrete_delay_tf(delay)
        kw = dict(dm=dm, nw=nw, dw=np.array([1.0]))
        if how == 'lpf':
            lpf = IirFilterData.lpf_from_fc([300.0] * len(num), 1000.0, n_ord=2, target_device_idx=-1)
            kw = dict(dm=np.convolve(dm, sp.arr(lpf.den[0])), nw=np.convolve(nw, sp.arr(lpf.num[0])), dw=np.array([1.0]))
    c.describe(num=num.tolist(), den=den.tolist(), delay=delay, how=how, allmodes=allm)
    G, NG = 6.0, 1500
    if allm:
        gm = fd.max_stable_gain(max_gain=G, n_gain=NG, **kw)
    else:
        gm = np.array([fd.max_stable_gain(mode=i, max_gain=G, n_gain=NG, **kw) for i in range(len(num))])
    step = G / NG
    before = sp.arr(fd.num).copy()
    for target in ('below', 'above'):
        g = np.array(gm, float)
        if target == 'below':
            g = np.where(g > 0, g * 0.93, 0)
        else:
            g = np.where(g > 0, g * 1.07 + 2 * step, 0.05)
        fd.set_gain(g)
        E, M = closed_loop(fd, delay, 1500, lpf)
        for i in range(len(num)):
            v = verdict(E[:, i])
            c.saw('loops_run')
            if target == 'below' and gm[i] > 0:
                c.check(v != 'unstable', 'unstable-below-max-gain', f'loop diverges at 93% of the reported maximum stable gain {gm[i]:.4f}',
                        mode=i, kind=kinds[i])
            elif target == 'above' and gm[i] < 0.9 * G:
                if v == 'stable' and gm[i] > 0 and kinds[i] in ('lead', 'fir', 'pid'):
                    # stable again beyond a narrow unstable band?  look for the band
                    band = False
                    for x in np.linspace(1.005, 1.2, 8):
                        gg = np.array(g)
                        gg[i] = gm[i] * x + 2 * step
                        fd.set_gain(gg)
                        e2, _ = closed_loop(fd, delay, 2500, lpf)
                        band |= verdict(e2[:, i]) != 'stable'
                    if band:
                        continue
                c.check(v != 'stable', 'stable-above-max-gain',
                        f'loop still stable at gain {g[i]:.4f} although the reported maximum stable gain is {gm[i]:.4f}', mode=i, kind=kinds[i])
    del before


@CHECK.section('stability_analysis', quick=24, thorough=200, timeout=900)
def stab(c):
    """the summary agrees with max_stable_gain and its resonance is the ringing frequency of the loop at 99% of the maximum gain"""
    import numpy as np
    from harness import sp
    rng = c.rng
    n = int(rng.integers(1, 3))
    gains = rng.uniform(0.1, 2.5, n)
    ff = np.where(rng.random(n) < 0.5, 1.0, rng.uniform(0.8, 0.999, n))
    from specula.data_objects.iir_filter_data import IirFilterData
    fd = IirFilterData.from_gain_and_ff(gains, ff, target_device_idx=-1)
    delay = rand_delay(rng)
    if delay < 1.5:
        delay += 1
    fs = float(sp.pick(rng, [1000.0, 400.0]))
    single = rng.random() < 0.5
    c.describe(gains=gains.tolist(), ff=ff.tolist(), delay=delay, fs=fs)
    G, NG = 4.0, 2000
    if single:
        res = [fd.stability_analysis(mode=i, delay=delay, fs=fs, max_gain=G, n_gain=NG) for i in range(n)]
    else:
        res = fd.stability_analysis(delay=delay, fs=fs, max_gain=G, n_gain=NG)
    gm = [fd.max_stable_gain(mode=i, delay=delay, max_gain=G, n_gain=NG) for i in range(n)]
    c.near(sp.arr(fd.num)[:, -1], gains, 'analysis-changed-filter', rtol=1e-6)
    c.check([r['mode'] for r in res] == list(range(n)), 'analysis-modes')
    fd2 = IirFilterData.from_gain_and_ff(np.array(gm) * 0.99, ff, target_device_idx=-1)
    N = 2048
    E, M = closed_loop(fd2, delay, N)
    for i in range(n):
        c.near(res[i]['max_stable_gain'], gm[i], 'analysis-max-gain', rtol=1e-9)
        if not np.all(np.isfinite(E[:, i])):
            continue
        e = E[50:, i] * np.hanning(N - 50)
        F = np.abs(np.fft.rfft(e, 8 * N))
        fr = np.arange(len(F)) * fs / (8 * N)
        lo = fr > 0.02 * fs
        ring = fr[lo][np.argmax(F[lo])]
        c.saw('ringing_frequencies')
        c.near(res[i]['resonance_frequency'], ring, 'resonance-frequency', rtol=0.03, scale=ring,
               gain=float(gains[i]), ff=float(ff[i]))


@CHECK.section('lpf', quick=40, thorough=400, precisions=(0, 1))
def lpf(c):
    """designed low-pass filters: unit static gain and requested response at the cut-off, measured on the running filter"""
    import numpy as np
    from harness import sp
    from specula.processing_objects.low_pass_filter import LowPassFilter
    rng = c.rng
    n = int(rng.integers(1, 4))
    dt = float(sp.pick(rng, [0.001, 0.002, 0.0005]))
    fs = 1 / dt
    fc = rng.uniform(0.03, 0.45, n) * fs
    kind = sp.pick(rng, ['ord', 'ord', 'ampl'])
    kw = {}
    if kind == 'ord':
        o = sp.pick(rng, [None, 1, 2, 4, 6])
        if o is not None:
            kw['n_ord'] = int(o)
        if c.precision == 1 and o in (4, 6):
            fc = rng.uniform(0.12, 0.4, n) * fs
    else:
        o = None
        a = rng.uniform(0.5, 3.0, n)
        kw['amplif_fact'] = float(a[0]) if (n == 1 or rng.random() < 0.4) else a.tolist()
    arg = float(fc[0]) if n == 1 and rng.random() < 0.5 else fc.tolist()
    c.describe(fc=fc.tolist(), fs=fs, kw=kw)
    f = LowPassFilter(sp.simul_params(time_step=dt), arg, **kw, target_device_idx=-1)
    N = 1500
    us = np.zeros((N, n))
    us[0] = 1
    _, Y = run_filter(f, us)
    tol = 1e-6 if c.precision == 0 else 5e-3
    for i in range(n):
        c.saw('lpf_measured')
        c.near(np.sum(Y[:, i]), 1.0, 'lpf-static-gain', rtol=tol, kw=str(kw), fc=float(fc[i]))
        want = 2 ** -0.5 if kind == 'ord' else float(np.broadcast_to(kw['amplif_fact'], n)[i])
        got = abs(dft(Y[:, i], [fc[i]], fs)[0])
        c.near(got, want, 'lpf-cutoff-response:' + (kind if kind == 'ampl' else f'order{"1" if o == 1 else "even"}'), rtol=tol, fc=float(fc[i]), fs=fs, kw=str(kw))
    if kind == 'ord':        # monotonic
        H = np.abs(dft(Y[:, 0], np.linspace(0.01, 0.49, 25) * fs, fs))
        c.check(np.all(np.diff(H) < max(tol, 1e-6)), 'lpf-not-monotonic', 'low-pass response is not monotonic')
    else:
        pass
    c.raises(ValueError, lambda: LowPassFilter(sp.simul_params(time_step=dt), [fs * 0.6] * n, **kw, target_device_idx=-1), 'cutoff-above-nyquist')


@CHECK.section('control_tf', quick=50, thorough=500)
def control_tf(c):
    """conversions to and from control-library transfer functions preserve the executed filter"""
    import numpy as np
    import control
    from harness import sp
    from specula.data_objects.iir_filter_data import IirFilterData
    from specula.processing_objects.iir_filter import IirFilter
    rng = c.rng
    num, den, kinds = rand_controller(c, rng)
    dt = 1e-3
    which = sp.pick(rng, ['from', 'to', 'round'])
    N = 40
    us = rng.normal(size=(N, len(num)))
    c.describe(num=num.tolist(), den=den.tolist(), which=which, kinds=kinds)

    def run(fd):
        return run_filter(IirFilter(sp.simul_params(), fd, target_device_idx=-1), us)[1]

    def ctl(tf, u):
        b, a = np.atleast_1d(np.squeeze(tf.num[0][0])), np.atleast_1d(np.squeeze(tf.den[0][0]))
        from scipy.signal import lfilter
        b = np.concatenate([np.zeros(len(a) - len(b)), b])     # powers of z -> powers of z^-1
        return lfilter(b, a, u)

    if which == 'from':
        tfs = [control.TransferFunction(num[i, ::-1], den[i, ::-1], dt) for i in range(len(num))]
        if rng.random() < 0.5:
            tfs = [control.minreal(t, verbose=False) if False else t for t in tfs]
        arg = tfs[0] if len(tfs) == 1 and rng.random() < 0.5 else tfs
        if rng.random() < 0.5:      # filters written with as few coefficients as possible
            tfs2 = []
            for i in range(len(num)):
                b, a = num[i, ::-1].copy(), den[i, ::-1].copy()
                while len(b) > 1 and b[-1] == 0 and a[-1] == 0:
                    b, a = b[:-1], a[:-1]
                tfs2.append(control.TransferFunction(b, a, dt))
            tfs = arg = tfs2
        fd = IirFilterData.from_control_tf(arg, target_device_idx=-1)
        Y = run(fd)
        for i, t in enumerate(tfs):
            c.near(Y[:, i], ctl(t, us[:, i]), 'from-control', rtol=1e-9, scale=1 + np.max(np.abs(Y[:, i])), mode=i, kind=kinds[i], tf=str(t))
            c.saw('control_filters')
    elif which == 'to':
        if rng.random() < 0.4:
            num, den = trim(num, den)
        fd = make(num, den)
        Y = run(fd)
        for i, t in enumerate(fd.to_control_tf_list(dt=dt)):
            c.near(ctl(t, us[:, i]), Y[:, i], 'to-control', rtol=1e-9, scale=1 + np.max(np.abs(Y[:, i])), mode=i, kind=kinds[i], tf=str(t))
            c.check(t.dt == dt, 'to-control-dt')
            c.saw('control_filters')
        T = np.arange(25) * dt
        i = int(rng.integers(len(num)))
        _, resp = fd.step_response(mode=i, dt=dt, T=T)
        one = run_filter(IirFilter(sp.simul_params(), fd, target_device_idx=-1), np.ones((25, len(num))))[1][:, i]
        c.near(np.squeeze(resp), one, 'step-response', rtol=1e-8, scale=1 + np.max(np.abs(one)), mode=i, kind=kinds[i])
        T2, resp = fd.impulse_response(mode=i, dt=dt, T=T)
        u = np.zeros((25, len(num)))
        u[0] = 1
        one = run_filter(IirFilter(sp.simul_params(), fd, target_device_idx=-1), u)[1][:, i]
        scale = 1 + np.max(np.abs(one))
        resp = np.squeeze(resp)
        c.check(np.allclose(resp, one, rtol=0, atol=1e-8 * scale) or np.allclose(resp * dt, one, rtol=0, atol=1e-8 * scale), 'impulse-response', f'{resp[:4]} instead of {one[:4]}')
        c.near(np.asarray(T2), T, 'impulse-time', rtol=1e-12)
        # frequency response, poles and margins of the same filter
        b, a = np.asarray(fd.num)[i], np.asarray(fd.den)[i]
        b, a = (np.concatenate([np.zeros(max(len(a), len(b)) - len(v)), v]) for v in (b, a))    # last coefficient: current sample
        L = lambda w: np.polyval(b[::-1], np.exp(1j * w * dt)) / np.polyval(a[::-1], np.exp(1j * w * dt))
        om = np.sort(rng.uniform(0.01, 0.98, 12)) * np.pi / dt
        mag, ph, w = (np.squeeze(np.asarray(v)) for v in fd.bode_plot(mode=i, dt=dt, omega=om, plot=False))
        H = L(np.asarray(w))
        e = np.abs(mag * np.exp(1j * ph) - H) / (1e-9 + np.abs(H))
        c.check(e.max() < 1e-6, 'bode', f'{mag * np.exp(1j * ph)} instead of {H}')
        poles, zeros = fd.pole_zero_map(mode=i, dt=dt, plot=False)
        if len(poles):
            pv = np.abs(np.polyval(a[::-1], poles)) / (1e-30 + np.polyval(np.abs(a[::-1]), np.abs(poles)))
            c.check(np.all(pv < 1e-6), 'poles', f'{poles} are not poles of the filter: {pv}')
        gm, pm, wg, wp = fd.stability_margins(mode=i, dt=dt)
        if np.isfinite(gm) and np.isfinite(wg) and 0.01 < wg * dt < 3.1416:
            v = L(wg) * 10 ** (gm / 20)
            c.check(abs(v + 1) < 1e-3, 'gain-margin', f'{gm} dB at {wg} rad/s: the loop gain there is {L(wg)}')
            c.saw('gain_margins')
        if np.isfinite(pm) and np.isfinite(wp) and 0.01 < wp * dt < 3.1:
            v = L(wp)
            c.check(abs(abs(v) - 1) < 1e-3 and abs(np.exp(1j * np.radians(pm)) + v / abs(v)) < 1e-2, 'phase-margin', f'{pm} deg at {wp} rad/s: the loop gain there is {v}')
            c.saw('phase_margins')
    else:
        fd = make(num, den)
        fd2 = IirFilterData.from_control_tf(fd.to_control_tf_list(dt=dt), target_device_idx=-1)
        Y, Y2 = run(fd), run(fd2)
        c.check(fd2.nfilter == fd.nfilter, 'roundtrip-nfilter')
        c.near(Y2, Y, 'control-roundtrip', rtol=1e-9, scale=1 + np.max(np.abs(Y)), kinds=kinds)
        c.saw('control_filters', len(num))


@CHECK.section('builders', quick=50, thorough=400)
def builders(c):
    """integrator builders (IIR and state space) describe the documented recursion; state-space stability verdict matches the run"""
    import numpy as np
    from harness import sp
    from specula.data_objects.iir_filter_data import IirFilterData
    from specula.data_objects.ssr_filter_data import SsrFilterData
    from specula.processing_objects.iir_filter import IirFilter
    from specula.processing_objects.ssr_filter import SsrFilter
    rng = c.rng
    n = int(rng.integers(1, 5))
    gain = rng.uniform(0.05, 1.5, n)
    ffk = sp.pick(rng, ['none', 'scalar', 'one', 'vector'])
    ff = {'none': None, 'scalar': 0.97, 'one': [0.93], 'vector': rng.uniform(0.7, 1.02, n)}[ffk]
    gk = sp.pick(rng, ['list', 'array', 'scalar' if n == 1 else 'list'])
    garg = {'list': gain.tolist(), 'array': gain, 'scalar': float(gain[0])}[gk]
    c.describe(n=n, ff=ffk, gain=gk)
    us = rng.normal(size=(25, n))
    ffv = np.broadcast_to(1.0 if ff is None else np.asarray(ff, float), n)
    y, ref = np.zeros(n), []
    for u in us:
        y = ffv * y + gain * u
        ref.append(y)
    ref = np.array(ref)
    fi = IirFilterData.from_gain_and_ff(garg, ff=ff, target_device_idx=-1)
    fs_ = SsrFilterData.from_integrator(garg, ff=ff, target_device_idx=-1)
    Yi = run_filter(IirFilter(sp.simul_params(), fi, target_device_idx=-1), us)[1]
    Ys = run_filter(SsrFilter(sp.simul_params(), fs_, target_device_idx=-1), us)[1]
    c.near(Yi, ref, 'from_gain_and_ff', rtol=1e-10, ff=ffk, gain=gk)
    c.near(Ys, ref, 'ssr-from_integrator', rtol=1e-10, ff=ffk, gain=gk)
    Yg = run_filter(SsrFilter(sp.simul_params(), SsrFilterData.from_gain(garg, target_device_idx=-1), target_device_idx=-1), us)[1]
    c.near(Yg, us * gain, 'ssr-from_gain', rtol=1e-12)
    c.saw('builders_run', 3)
    # state-space stability
    ns = int(rng.integers(1, 4))
    m = int(rng.integers(1, 3))
    A = [rng.normal(size=(ns, ns)) * 0.6 for _ in range(m)]
    B = [np.ones((ns, 1)) + rng.normal(size=(ns, 1)) * 0.1 for _ in range(m)]
    C = [rng.normal(size=(1, ns)) for _ in range(m)]
    D = [np.array([[0.1]]) for _ in range(m)]
    sd = SsrFilterData(A, B, C, D, target_device_idx=-1)
    x = np.zeros((600, m))
    x[0] = 1
    f = SsrFilter(sp.simul_params(), sd, target_device_idx=-1)
    with np.errstate(all='ignore'):
        Y = run_filter(f, x)[1]
    vs = [verdict(np.where(np.abs(Y[:, i]) < 1e200, Y[:, i], np.inf)) for i in range(m)]
    if None not in vs:
        c.saw('ssr_verdicts')
        c.check(sd.is_stable() == all(v == 'stable' for v in vs), 'ssr-stability', f'is_stable {sd.is_stable()} but executed modes are {vs}')
