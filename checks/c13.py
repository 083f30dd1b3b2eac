"""C13: integrating elements account for every photon and every step."""
from harness.vf import CheckDef
CHECK = CheckDef('C13', rule=(
    'ledger: a CCD with random geometry, integration ratio, start time, binning, efficiency and deterministic settings receives a random light history; a photon ledger predicts every frame, '
    'its time, and that nothing changes between frames. noise: frames with each noise term enabled, sample mean and variance against the law of its parameters with wide (7 sigma) bounds, '
    'disabled terms have no effect, digital values on the ADU grid and within range, no repetition between frames. window: windowed integration and cumulative intensity against a sample ledger. '
    'Non-trivial: at least one complete frame was compared; distinct by configuration.'),
    assumptions=['the light on the detector is refreshed at every step of the loop, as every wavefront sensor of the package does'])


def tol(p):
    return dict(rtol=1e-9 if p == 0 else 2e-5)


@CHECK.section('ledger', quick=240, thorough=8000, precisions=(0, 1), chunk=60)
def ledger(c):
    import numpy as np
    from harness import sp
    from specula.processing_objects.ccd import CCD
    from specula.data_objects.intensity import Intensity
    rng = c.rng
    bin_ = int(sp.pick(rng, [1, 1, 2, 3, 4]))
    nx, ny = bin_ * int(rng.integers(1, 7)), bin_ * int(rng.integers(1, 7))
    if rng.random() < 0.4:
        ny = nx
    step_s = float(sp.pick(rng, [0.001, 0.0005, 1.0, 0.002, 1 / 1024, 0.003, 1e-5]))
    ratio = int(sp.pick(rng, [1, 1, 2, 3, 4, 5, 7, 10]))
    start = int(sp.pick(rng, [0, 0, 1, 2, 3, 5]))
    nsteps = start + ratio * int(rng.integers(2, 5)) + int(rng.integers(0, ratio + 1))
    bandw = float(rng.uniform(1, 500))
    qe = float(sp.pick(rng, [1.0, round(rng.uniform(0.1, 0.99), 3)]))
    dtn = int(round(step_s * 1e9))
    # levels without their noise switch must have no effect; the switches of deterministic terms do
    bg_on, dk_on = bool(rng.random() < 0.3), bool(rng.random() < 0.3)
    bgl, dkl = [float(x) for x in rng.uniform(0.5, 30, 2)]
    gains = None if rng.random() < 0.7 else rng.uniform(0.5, 1.5, (ny // bin_, nx // bin_))
    cte = nx == ny and bin_ == 1 and rng.random() < 0.3
    cm = np.stack([np.eye(nx) + rng.normal(size=(nx, nx)) * 0.1 for _ in range(2)], axis=2) if cte else None
    c.describe(bin=bin_, nx=nx, ny=ny, step=step_s, ratio=ratio, start=start, nsteps=nsteps, qe=qe, bg=bg_on, dk=dk_on, cte=cte, gains=gains is not None)
    params = sp.simul_params(time_step=step_s)
    with sp.quiet():
        ccd = CCD(params, size=[nx, ny], dt=dtn * ratio / 1e9, bandw=bandw, binning=bin_, quantum_eff=qe, start_time=start * dtn / 1e9, background_noise=bg_on, background_level=bgl,
                  darkcurrent_noise=dk_on, darkcurrent_level=dkl, readout_level=12.0, cic_level=0.3, pixelGains=gains, cte_noise=cte, cte_mat=cm, target_device_idx=-1)
    light = Intensity(nx, ny, target_device_idx=-1)
    ccd.inputs['in_i'].set(light)
    ccd.setup()
    px, ii = ccd.outputs['out_pixels'], ccd.outputs['integrated_i']
    c.check(px.get_value().shape == (ny // bin_, nx // bin_), 'frame-shape', f'{px.get_value().shape} expected {(ny // bin_, nx // bin_)}')
    acc = np.zeros((ny, nx))
    count = 0
    frames = 0
    total_in = 0.0
    pending = 0.0
    t0 = px.generation_time
    last = (px.get_value().copy(), ii.i.copy(), px.generation_time, ii.generation_time)
    for k in range(nsteps):
        v = rng.random((ny, nx)) * 10 ** rng.uniform(0, 4) * (rng.random((ny, nx)) < 0.8)
        if rng.random() < 0.1:
            v[...] = 0
        light.i[...] = v
        v = light.i.copy()
        light.generation_time = k * dtn
        sp.step(ccd, k * dtn)
        c.check(np.array_equal(light.i, v), 'input-changed')
        if k >= start:
            acc += v * (dtn / 1e9) * bandw
            count += 1
        if count == ratio:
            frames += 1
            c.check(px.generation_time == k * dtn and ii.generation_time == k * dtn, 'frame-time', f'frame expected at step {k}: pixels at {px.generation_time}, integrated at {ii.generation_time}')
            c.near(ii.i, acc, 'integrated-light', **tol(c.precision))
            w = acc.reshape(ny // bin_, bin_, nx // bin_, bin_).sum(axis=(1, 3)) * qe
            if bg_on:
                w = w + bgl
            if dk_on:
                w = w + dkl
            if cte:
                w = cm[:, :, 0] @ w @ cm[:, :, 1]
            if gains is not None:
                w = w * gains
            c.near(px.get_value(), w, f'frame:bin{min(bin_, 2)}', scale=float(np.abs(w).max()) + 1e-30, **tol(c.precision))
            c.saw('frames')
            acc[...] = 0
            count = 0
            last = (px.get_value().copy(), ii.i.copy(), px.generation_time, ii.generation_time)
        else:
            c.check(px.generation_time == last[2] and ii.generation_time == last[3], 'unexpected-frame', f'step {k} ({count} of {ratio} integrated): pixels stamped {px.generation_time}')
            c.check(np.array_equal(px.get_value(), last[0]) and np.array_equal(ii.i, last[1]), 'changed-between-frames', f'step {k}')
    if not frames:
        c.skip()


@CHECK.section('refuse', quick=16, thorough=16, precisions=(0,), chunk=16)
def refuse(c):
    from harness import sp
    from specula.processing_objects.ccd import CCD
    from specula.processing_objects.windowed_integration import WindowedIntegration
    i = c.i
    p = sp.simul_params(time_step=0.002)
    bad = [0, -0.002, 0.001, 0.003, 0.0021, 0.005, 0.0199999]
    with sp.quiet():
        if i < len(bad):
            c.raises(ValueError, lambda: CCD(p, size=[4, 4], dt=bad[i], bandw=10, target_device_idx=-1), 'ccd-bad-dt')
            c.raises(ValueError, lambda: WindowedIntegration(p, n_elem=3, dt=bad[i], target_device_idx=-1), 'window-bad-dt')
        else:
            c.raises(ValueError, lambda: CCD(p, size=[4, 4], dt=0.002, bandw=10, cte_noise=True, target_device_idx=-1), 'cte-without-matrix')
            for k in (1, 2, 3, 50, 499):
                CCD(p, size=[4, 4], dt=k * 0.002, bandw=10, target_device_idx=-1)
                WindowedIntegration(p, n_elem=3, dt=k * 0.002, target_device_idx=-1)
    c.describe(i=i)
    c.saw('configurations')


@CHECK.section('noise', quick=144, thorough=2400, precisions=(0, 1), chunk=36)
def noise(c):
    import numpy as np
    from harness import sp
    from specula.processing_objects.ccd import CCD
    from specula.data_objects.intensity import Intensity
    rng = c.rng
    bin_ = int(sp.pick(rng, [1, 1, 2]))
    n = 24 * bin_
    ratio = int(sp.pick(rng, [1, 2, 4]))
    nfr = 8
    seeds = [int(x) for x in rng.integers(1, 1 << 30, 4)]
    kind = ['photon', 'readout', 'excess', 'cic', 'photon+readout', 'photon+excess', 'photon+excess+readout', 'photon+dark', 'photon+background', 'none', 'photon+cic', 'photon+dark+background+readout'][c.i % 12]
    on = set(kind.split('+'))
    level = float(10 ** rng.uniform(0.3, 3))             # electrons per binned pixel per frame, after efficiency
    qe = float(sp.pick(rng, [1.0, 0.6]))
    ron = float(rng.uniform(0.5, 20))
    dark, bg = float(rng.uniform(1, 50)), float(rng.uniform(1, 50))
    cic = float(rng.uniform(0.05, 0.5))
    adu = float(sp.pick(rng, [8.0, 4.0, 2.0, 16.0]))
    bias = int(sp.pick(rng, [400, 100, 2000]))
    emg = float(sp.pick(rng, [100.0, 400.0]))
    delta = float(sp.pick(rng, [1.0, 2.0]))
    kw = dict(photon_noise='photon' in on, readout_noise='readout' in on, excess_noise='excess' in on, darkcurrent_noise='dark' in on, background_noise='background' in on, cic_noise='cic' in on,
              readout_level=ron, darkcurrent_level=dark, background_level=bg, cic_level=cic, photon_seed=seeds[0], readout_seed=seeds[1], excess_seed=seeds[2], cic_seed=seeds[3], ADU_bias=bias,
              excess_delta=delta)
    if 'excess' in on:
        kw['emccd_gain'] = emg
        adu = float(sp.pick(rng, [0.05, 0.5]))
    kw['ADU_gain'] = adu
    c.describe(kind=kind, level=level, bin=bin_, ratio=ratio, adu=adu, ron=ron, seeds=str(seeds))
    step_s, bandw = 0.001, 300.0
    with sp.quiet():
        import warnings
        warnings.simplefilter('ignore')
        ccd = CCD(sp.simul_params(time_step=step_s), size=[n, n], dt=step_s * ratio, bandw=bandw, binning=bin_, quantum_eff=qe, target_device_idx=-1, **kw)
    light = Intensity(n, n, target_device_idx=-1)
    light.i[...] = level / qe / bin_**2 / (bandw * step_s * ratio)
    ccd.inputs['in_i'].set(light)
    ccd.setup()
    F = []
    for k in range(nfr * ratio):
        light.generation_time = k * 1000000
        sp.step(ccd, k * 1000000)
        if (k + 1) % ratio == 0:
            F.append(ccd.outputs['out_pixels'].get_value().astype(float).copy())
    F = np.array(F)
    N = F.size
    # expected mean and variance (in electrons)
    m = level + (bg if 'background' in on else 0) + (dark if 'dark' in on else 0) + (cic if 'cic' in on else 0)
    var = cic * (1 - cic) if 'cic' in on else 0.0
    gain = emg if ('excess' in on and 'photon' not in on) else 1.0
    if 'photon' in on:
        var += m - (var if 'cic' in on else 0) + (var if 'cic' in on else 0)
    if 'excess' in on:
        var += m / delta
    if 'readout' in on:
        var += ron**2
    mean = m
    lsb = 0.0
    if 'photon' in on:
        lsb = 1 / adu / (emg if 'excess' in on else 1)
        var += lsb**2 / 12
        if 'dark' in on:
            mean -= dark
    eps = 1e-9 if c.precision == 0 else 1e-4
    if var == 0:
        c.near(F, np.full(F.shape, mean), 'noiseless', rtol=eps)
        c.saw('frames', nfr)
        return
    mean, var = mean * gain, var * gain**2
    # clipping at the bottom of the range must not matter for these parameters
    if 'photon' in on and bias * lsb < 8 * np.sqrt(var) - m:
        c.skip()
        return
    s = np.sqrt(var)
    zm = (F.mean() - mean) / (s / np.sqrt(N))
    c.check(abs(zm) < 7 or abs(F.mean() - mean) < eps * abs(mean), f'mean:{kind}', f'mean {F.mean():.5g} expected {mean:.5g} ({zm:.1f} sigma)')
    # the variance estimator: kurtosis of these laws is below 10 when level > 1
    rel = 7 * np.sqrt(10 / N)
    c.check(abs(F.var() / var - 1) < rel, f'variance:{kind}', f'variance {F.var():.5g} expected {var:.5g} (tolerance {rel:.3f})')
    c.saw('frames', nfr)
    # successive frames and neighbouring pixels are independent: correlations within 7 sigma
    Z = (F - F.mean()) / F.std()
    for name, r in (('frame', (Z[1:] * Z[:-1]).mean()), ('row', (Z[:, 1:] * Z[:, :-1]).mean()), ('column', (Z[:, :, 1:] * Z[:, :, :-1]).mean())):
        c.check(abs(r) < 7 / np.sqrt(N * 0.8), f'correlated-{name}:{kind}', f'correlation {r:.4f}')
    c.check(all(not np.array_equal(F[k], F[k + 1]) for k in range(nfr - 1)), f'frames-repeat:{kind}')
    # digital values sit on the converter grid and above the bottom of the range
    if 'photon' in on:
        off = dark if 'dark' in on else 0.0
        g = (F + off) / lsb
        err = np.abs(g - np.round(g)).max()
        c.check(err < (1e-6 if c.precision == 0 else 1e-5 * np.abs(g).max() + 1e-3), f'adu-grid:{kind}', f'distance from the ADU grid {err}')
        c.check(g.min() >= -bias - 1e-3, f'adu-range:{kind}', f'{g.min()} below -{bias}')


@CHECK.section('range', quick=40, thorough=800, precisions=(0, 1), chunk=40)
def rng_(c):
    """readout noise larger than the bias: digital values are clipped at zero, never negative"""
    import numpy as np
    from harness import sp
    from specula.processing_objects.ccd import CCD
    from specula.data_objects.intensity import Intensity
    rng = c.rng
    bias = int(rng.integers(0, 30))
    adu = float(sp.pick(rng, [2.0, 8.0]))
    ron = float(rng.uniform(10, 60))
    n = 20
    ccd = CCD(sp.simul_params(time_step=0.001), size=[n, n], dt=0.001, bandw=1.0, photon_noise=True, readout_noise=True, readout_level=ron, ADU_gain=adu, ADU_bias=bias,
              readout_seed=int(rng.integers(1, 1 << 30)), target_device_idx=-1)
    light = Intensity(n, n, target_device_idx=-1)
    light.i[...] = 2000.0
    ccd.inputs['in_i'].set(light)
    ccd.setup()
    for k in range(4):
        light.generation_time = k * 1000000
        sp.step(ccd, k * 1000000)
        d = ccd.outputs['out_pixels'].get_value().astype(float) * adu + bias
        c.check(d.min() >= -1e-3, 'negative-adu', f'{d.min()}')
        c.check(np.abs(d - np.round(d)).max() < 1e-2, 'not-integer', f'{np.abs(d - np.round(d)).max()}')
        frac = (np.abs(d) < 0.5).mean()
        # P(2 + ron*g + bias/adu < 0)
        from math import erf
        p = 0.5 * (1 + erf((-2 - (bias - 0.5) / adu) / ron / np.sqrt(2)))
        c.check(abs(frac - p) < 7 * np.sqrt(p * (1 - p) / n**2) + 0.05, 'clipped-fraction', f'{frac} expected {p}')
    c.describe(bias=bias, adu=adu, ron=ron)
    c.saw('frames', 4)


@CHECK.section('window', quick=200, thorough=6000, precisions=(0, 1), chunk=100)
def window(c):
    import numpy as np
    from harness import sp
    from specula.processing_objects.windowed_integration import WindowedIntegration
    rng = c.rng
    n = int(rng.integers(1, 6))
    step_s = float(sp.pick(rng, [0.001, 0.0005, 1.0, 1 / 1024, 0.1]))
    dtn = int(round(step_s * 1e9))
    ratio = int(sp.pick(rng, [1, 2, 3, 5, 8]))
    start = int(sp.pick(rng, [0, 0, 1, 2, 4, 7]))
    upd = bool(rng.integers(2))
    nsteps = start + ratio * int(rng.integers(2, 6)) + int(rng.integers(0, ratio + 1))
    w = WindowedIntegration(sp.simul_params(time_step=step_s), n_elem=n, dt=ratio * dtn / 1e9, start_time=start * dtn / 1e9, update_time_on_dt=upd, target_device_idx=-1)
    b = sp.val(np.zeros(n, dtype=w.dtype))
    w.inputs['input'].set(b)
    w.setup()
    o = w.outputs['output']
    acc, cnt, lastt, done = np.zeros(n), 0, o.generation_time, 0
    for k in range(nsteps):
        v = rng.normal(size=n).astype(w.dtype) * 10
        sp.setval(b, v.copy(), k * dtn)
        sp.step(w, k * dtn)
        c.check(np.array_equal(b.value, v), 'input-changed')
        want = np.zeros(n)
        if k >= start:
            acc += v
            cnt += 1
            if cnt == ratio:
                want = acc / ratio
                acc, cnt = np.zeros(n), 0
                lastt = k * dtn
                done += 1
                c.saw('windows')
        c.near(o.value, want, 'window-value', rtol=1e-9 if c.precision == 0 else 1e-4, atol=1e-9 if c.precision == 0 else 1e-4)
        c.check(o.generation_time == (lastt if upd else k * dtn), 'window-time', f'step {k}: {o.generation_time} (last window {lastt})')
    c.describe(n=n, ratio=ratio, start=start, upd=upd, nsteps=nsteps, s=step_s)
    if not done:
        c.skip()


@CHECK.section('system', quick=24, thorough=400, precisions=(0,), chunk=12)
def system(c):
    """sensor + detector inside a complete simulation: the frames add up to the light the sensor published"""
    import numpy as np
    from harness import sp, zoo
    from harness.monitor import run_monitored
    rng = c.rng
    ratio = int(sp.pick(rng, [1, 2, 3, 4]))
    nsteps = int(rng.integers(ratio * 2, ratio * 4 + 2))
    start = int(sp.pick(rng, [0, 0, 1, 2]))
    binn = int(sp.pick(rng, [1, 2]))
    par = {'main': sp.main_params(nsteps),
           'light': {'class': 'VerifTyped', 'kind': 'intensity', 'size': 8, 'seed': int(rng.integers(1 << 30)), 'pattern': [True], 'style': str(sp.pick(rng, ['rebind', 'inplace'])), 'outputs': ['out']},
           'ccd': {'class': 'CCD', 'simul_params_ref': 'main', 'size': [8, 8], 'dt': ratio * 0.001, 'bandw': 100.0, 'binning': binn, 'start_time': start * 0.001, 'quantum_eff': 0.5,
                   'inputs': {'in_i': 'light.out'}, 'outputs': ['out_pixels', 'integrated_i']}}
    simul, mon = run_monitored(par, record=True, keep_values=True)
    L = [list(d.values())[0][0] for t, d in mon.values['light']]
    fr = {}
    for t, d in mon.log['ccd']:
        g = d['out_pixels'][0][1]
        if g == t:
            fr[t] = None
    vals = dict((t, d['out_pixels'][0]) for t, d in mon.values['ccd'])
    want = [start * 1000000 + (j + 1) * ratio * 1000000 - 1000000 for j in range(nsteps) if start + (j + 1) * ratio <= nsteps]
    c.check(sorted(fr) == want, 'frame-times', f'{sorted(fr)} expected {want}')
    for j, t in enumerate(want):
        s = sum(L[start + j * ratio: start + (j + 1) * ratio]) * 0.001 * 100.0
        w = s.reshape(8 // binn, binn, 8 // binn, binn).sum(axis=(1, 3)) * 0.5
        if t in vals:
            c.near(vals[t], w, 'frame', rtol=1e-9)
            c.saw('frames')
    c.describe(ratio=ratio, nsteps=nsteps, start=start, bin=binn)
