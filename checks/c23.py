"""C23: PSF and Strehl statistics are those of the wavefronts observed; coronagraphs and modal analyses do what they declare."""
from harness.vf import CheckDef
CHECK = CheckDef('C23', rule=(
    'Random pupils, wavefront histories, samplings and start times are given to the real PSF, PsfCoronagraph, coronagraph and ModalAnalysis objects step by step (and inside complete simulations, with every field recorded); an independent '
    'Fourier reference and a running ledger of the fields observed predict every published value. Coronagraphs are judged by linearity, piston invariance, null depth and the transmission of off-axis sources against their declared working angles; '
    'modal analyses by recovering known coefficients. Distinct by parameters.'),
    assumptions=['square pupils', 'binary or grey amplitude constant in time for Strehl ratios', 'working angles judged outside a transition of 1.5 lambda/D around the edges',
                 'the output flux S0 of a coronagraph is scaled by its transmission besides the amplitude (pinned by existing tests)'])


def pupil(rng, n, kind=None):
    import numpy as np
    from harness import sp
    y, x = (np.mgrid[0:n, 0:n] + 0.5 - n / 2) / (n / 2)
    r = np.hypot(x, y)
    kind = kind or sp.pick(rng, ['round', 'obs', 'full', 'grey', 'odd'])
    if kind == 'full':
        return np.ones((n, n))
    a = (r <= 1).astype(float)
    if kind == 'obs':
        a[r < rng.uniform(0.1, 0.4)] = 0
    if kind == 'grey':
        a *= rng.uniform(0.3, 1, (n, n))
    if kind == 'odd':
        a *= (x > rng.uniform(-0.9, 0)) * (rng.random((n, n)) > 0.05)
        a[n // 2, n // 2] = 1
    return a


def smooth(rng, n, rms):
    import numpy as np
    y, x = (np.mgrid[0:n, 0:n] + 0.5 - n / 2) / (n / 2)
    p = np.zeros((n, n))
    for _ in range(int(rng.integers(1, 7))):
        p = p + rng.normal() * np.cos(rng.normal(0, 4) * x + rng.normal(0, 4) * y + rng.uniform(0, 6))
    if rng.random() < 0.4:
        p = p + rng.normal(0, 1, (n, n))
    s = p.std()
    return p / s * rms if s > 0 else p


def ref_psf(a, phi, size):
    import numpy as np
    u = np.zeros((size, size), complex)
    u[:a.shape[0], :a.shape[1]] = a * np.exp(1j * phi)
    p = np.abs(np.fft.fftshift(np.fft.fft2(u))) ** 2
    return p / p.sum(), p.sum()


def make_ef(n, pitch, a, ph, t, **kw):
    from specula.data_objects.electric_field import ElectricField
    ef = ElectricField(n, n, pitch, **kw)
    ef.A[:] = a
    ef.phaseInNm[:] = ph
    ef.generation_time = t
    return ef


def brute_profile(img, n_over_d):
    """profile, distance [lambda/D] and counts of integer annuli around the centre pixel"""
    import numpy as np
    cy, cx = img.shape[0] / 2, img.shape[1] / 2
    bins = {}
    for i in range(img.shape[0]):
        for j in range(img.shape[1]):
            r = float(np.hypot(i - cy, j - cx))
            bins.setdefault(int(r), []).append((img[i, j], r))
    ks = sorted(bins)
    prof = np.array([np.mean([v for v, _ in bins[k]]) for k in ks])
    dist = np.array([np.mean([r for _, r in bins[k]]) for k in ks]) / n_over_d
    cnt = np.array([len(bins[k]) for k in ks])
    return prof, dist, cnt


def brute_fwhm(prof, dist):
    import numpy as np
    h = prof.max() / 2
    for k in range(1, len(prof)):
        if prof[k] <= h:
            if prof[k] == prof[k - 1]:
                return 2 * dist[k - 1]
            return 2 * (dist[k - 1] + (h - prof[k - 1]) * (dist[k] - dist[k - 1]) / (prof[k] - prof[k - 1]))
    return float('nan')


def check_metrics(c, obj, key, img, nd, prof_out, fwhm_out, ee_out, eer_out, radii, tol):
    import numpy as np
    pr, di, cn = brute_profile(img / img.max(), nd)
    got = np.asarray(obj.outputs[prof_out].value)
    if not c.check(got.shape == (2, len(pr)), f'{key}:profile shape', f'{got.shape} vs {(2, len(pr))}'):
        return
    c.near(got[0], di, f'{key}:profile distance', rtol=tol)
    c.near(got[1], pr, f'{key}:profile', rtol=tol, atol=tol)
    f = brute_fwhm(pr, di)
    h = pr.max() / 2
    # skip when an annulus is within rounding of half maximum
    if np.min(np.abs(pr[1:] - h)) > 10 * tol:
        g = float(obj.outputs[fwhm_out].value)
        c.check((np.isnan(f) and np.isnan(g)) or abs(f - g) <= 100 * tol * max(1, abs(f)), f'{key}:FWHM', f'{g} vs {f}')
    ee = np.cumsum(pr * cn)
    ee = ee / ee[-1]
    e = np.asarray(obj.outputs[ee_out].value)
    c.near(e[1], ee, f'{key}:encircled energy', rtol=tol, atol=tol)
    c.check(np.all(np.diff(e[1]) >= -1e-6) and abs(e[1][-1] - 1) < 1e-5, f'{key}:encircled energy not a cumulative distribution', '')
    if radii is not None:
        c.near(obj.outputs[eer_out].value, np.interp(radii, di, ee), f'{key}:encircled energy at radius', rtol=tol, atol=10 * tol)
    else:
        c.check(obj.outputs[eer_out].value is None, f'{key}:encircled energy at radius', 'not requested')


@CHECK.section('psf', quick=240, thorough=4000)
def psf(c):
    """instantaneous PSF against an independent Fourier transform, and ledger of averages, variances and metrics over a random history with missed steps"""
    import numpy as np
    from harness import sp
    from specula.processing_objects.psf import PSF
    from specula.processing_objects.psf_coronagraph import PsfCoronagraph
    rng = c.rng
    n = int(rng.integers(6, 22))
    pitch = float(rng.uniform(0.01, 0.5))
    wl = float(rng.uniform(300, 3000))
    kind = sp.pick(rng, ['round', 'obs', 'full', 'grey', 'odd'])
    a = pupil(rng, n, kind)
    prec = c.precision
    par = sp.simul_params(pixel_pupil=n, pixel_pitch=pitch)
    lod = wl * 1e-9 / (n * pitch) * 180 / np.pi * 3600e3
    kw, nd = {}, 1.0
    mode = sp.pick(rng, ['nd', 'nd', 'size', 'none'])
    if mode == 'nd':
        kw['nd'] = nd = float(sp.pick(rng, [1, 2, 3, 4, 1.5, 2.5, 3.3]))
    if mode == 'size':
        kw['pixel_size_mas'] = float(lod / rng.uniform(1, 4))
    coro = bool(rng.random() < 0.5)
    avg = bool(rng.random() < 0.5)
    nsteps = int(rng.integers(1, 9))
    dt = int(sp.pick(rng, [1_000_000, 700_000, 3_333_333]))
    kstart = int(rng.integers(0, nsteps + 1)) if rng.random() < 0.6 else 0
    frac = float(sp.pick(rng, [0, 0, -0.5]))
    start = max(0.0, (kstart * dt) / 1e9 if frac == 0 else (kstart + frac) * dt / 1e9)
    metrics, intrig = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    radii = sp.pick(rng, [None, 1.0, [0.5, 1.2, 3.0]])
    c.describe(n=n, kind=kind, mode=mode, coro=coro, avg=avg, nsteps=nsteps, kstart=kstart, metrics=metrics, intrig=intrig, prec=prec, **kw)
    cls = PsfCoronagraph if coro else PSF
    if coro:
        kw['use_average_field'] = avg
    with sp.quiet():
        o = cls(simul_params=par, wavelengthInNm=wl, start_time=start, compute_profile_metrics=metrics, compute_metrics_in_trigger=intrig, ee_radius_in_lambda_d=radii, verbose=bool(rng.random() < 0.2), **kw)
    if mode == 'size':
        nd = o.nd
    c.near(o.psf_pixel_size, lod / nd, 'declared pixel size', rtol=1e-12)
    ef = make_ef(n, pitch, a, 0, -1)
    o.inputs['in_ef'].set(ef)
    tol = 1e-9 if prec == 0 else 3e-5
    led, run, scale = [], 0, float(10 ** rng.uniform(-2, 3))
    size = None
    with sp.quiet():
        o.setup()
        t = 0
        for k in range(nsteps):
            fresh = k == 0 or rng.random() < 0.75
            if fresh:
                rms = float(sp.pick(rng, [0, 1e-3, 0.03, 0.3, 3]))
                phi = smooth(rng, n, rms)
                ef.phaseInNm[:] = phi * wl / (2 * np.pi)
                phi = np.asarray(ef.phaseInNm, dtype=float) * 2 * np.pi / wl
                ef.generation_time = t
            inp = (np.array(ef.A), np.array(ef.phaseInNm))
            ran = sp.step(o, t)
            c.check(ran == fresh, 'psf:ran without a new field', f'{ran} {fresh}')
            c.check(np.array_equal(inp[0], ef.A) and np.array_equal(inp[1], ef.phaseInNm), 'psf:input modified', '')
            if fresh:
                p = np.asarray(o.outputs['out_psf'].value)
                size = p.shape[0]
                if run == 0:
                    c.check(p.shape[0] == p.shape[1] and size % 2 == 0 and abs(size - n * nd) <= 1.0 + 1e-9, 'psf:size', f'{p.shape} for {n}*{nd}')
                if size < n:
                    return c.skip()
                run += 1
                want, tot = ref_psf(a, phi, size)
                sc = want.max()
                c.near(p, want, 'psf', rtol=tol, atol=tol, scale=sc)
                c.check(p.min() >= 0, 'psf:negative', '')
                c.near(p.sum(), 1, 'psf:sum', rtol=tol * 10)
                sr = abs(np.sum(a * np.exp(1j * phi))) ** 2 / np.sum(a) ** 2
                g = float(o.outputs['out_sr'].value)
                c.near(g, sr, 'strehl', rtol=tol * 10, atol=tol)
                c.check(g <= 1 + tol * 10, 'strehl:more than one', f'{g}')
                if rms == 0:
                    c.near(g, 1, 'strehl:flat', rtol=tol * 10)
                w = a / a.sum()
                var = np.sum(w * phi ** 2) - np.sum(w * phi) ** 2
                if var < 0.01:
                    c.near(g, np.exp(-var), 'strehl:small aberrations', atol=5 * var ** 1.5 + 10 * tol, rtol=0)
                for nm in ('out_psf', 'out_sr'):
                    c.check(o.outputs[nm].generation_time == t, 'psf:time', f'{nm} {o.outputs[nm].generation_time} {t}')
                cp = None
                if coro:
                    m = a > 0
                    e = a * np.exp(1j * phi)
                    if avg:
                        e = e - e.sum() / m.sum() * m
                    else:
                        mp = phi[m].mean()
                        vp = ((phi[m] - mp) ** 2).mean()
                        e = e - np.exp(-vp / 2) * np.exp(1j * mp) * a
                    u = np.zeros((size, size), complex)
                    u[:n, :n] = e
                    cp = np.abs(np.fft.fftshift(np.fft.fft2(u))) ** 2 / tot
                    got = np.asarray(o.outputs['out_coronagraph_psf'].value)
                    c.near(got, cp, 'coronagraphic psf', rtol=tol, atol=tol, scale=sc)
                    if kind != 'grey':
                        if rms == 0:
                            c.check(got.max() < 1e-9 if prec == 0 else got.max() < 1e-6, 'coronagraphic psf:flat not removed', f'{got.max()}')
                        if avg:
                            c.near(got.sum(), 1 - sr, 'coronagraphic psf:energy', atol=100 * tol, rtol=0)
                    c.check(o.outputs['out_coronagraph_psf'].generation_time == t, 'psf:time', 'coronagraphic')
                if t >= start * 1e9 - 1:
                    led.append((want, sr, cp))
                if metrics and intrig and n <= 14:
                    check_metrics(c, o, 'instantaneous', p, nd, 'out_psf_profile', 'out_psf_fwhm', 'out_encircled_energy', 'out_encircled_energy_at_radius', radii, tol * 10)
                last = t
            t += dt
        o.finalize()
    c.saw('fields', run)
    c.saw('fields averaged', len(led))
    ip, isr, sd = (np.asarray(o.outputs[k].value) for k in ('out_int_psf', 'out_int_sr', 'out_std_psf'))
    for k in ('out_int_psf', 'out_int_sr', 'out_std_psf'):
        c.check(last <= o.outputs[k].generation_time < t, 'psf:time of averages', f'{k} {o.outputs[k].generation_time} not in {last} {t}')
    if not led:
        c.check(not ip.any() and float(isr) == 0 and not sd.any(), 'average:nothing to average', '')
        return
    m = np.mean([x[0] for x in led], axis=0)
    sc = m.max()
    c.near(ip, m, 'average psf', rtol=tol * 3, atol=tol * 3, scale=sc)
    c.near(isr, np.mean([x[1] for x in led]), 'average strehl', rtol=tol * 30, atol=tol)
    s = np.std([x[0] for x in led], axis=0)
    c.near(sd ** 2, s ** 2, 'variance of the psf', atol=tol * 30, rtol=tol, scale=sc ** 2)
    if coro:
        m2 = np.mean([x[2] for x in led], axis=0)
        c.near(o.outputs['out_int_coronagraph_psf'].value, m2, 'average coronagraphic psf', rtol=tol * 3, atol=tol * 3, scale=sc)
        s2 = np.std([x[2] for x in led], axis=0)
        c.near(np.asarray(o.outputs['out_std_coronagraph_psf'].value) ** 2, s2 ** 2, 'variance of the coronagraphic psf', atol=tol * 30, rtol=tol, scale=sc ** 2)
    if metrics and n <= 14:
        check_metrics(c, o, 'average', ip, nd, 'out_int_psf_profile', 'out_int_psf_fwhm', 'out_int_encircled_energy', 'out_int_encircled_energy_at_radius', radii, tol * 10)
        if coro and m2.max() > 1e-7:
            pr, di, cn = brute_profile(m2 / m2.max(), nd)
            got = np.asarray(o.outputs['out_int_coronagraph_psf_profile'].value)
            c.near(got[1], pr, 'average:coronagraphic profile', atol=tol * 1e3 * max(1, sc / m2.max() * 1e-2), rtol=tol)
            c.near(got[0], di, 'average:coronagraphic profile distance', rtol=tol * 10)


@CHECK.section('metamorphic', quick=60, thorough=2000)
def metamorphic(c):
    """a tilt moves the PSF by the same angle along the same axis, a piston changes nothing, mirroring mirrors; the order of samples does not change averages"""
    import numpy as np
    from harness import sp
    from specula.processing_objects.psf import PSF
    rng = c.rng
    n = int(rng.integers(4, 11)) * 2
    nd = int(rng.integers(1, 5))
    wl = float(rng.uniform(400, 2500))
    par = sp.simul_params(pixel_pupil=n, pixel_pitch=0.1)
    a = pupil(rng, n)
    phi = smooth(rng, n, float(rng.uniform(0, 1)))
    ax, ay = int(rng.integers(-n // 2, n // 2)), int(rng.integers(-n // 2, n // 2))
    c.describe(n=n, nd=nd, ax=ax, ay=ay)

    def run(phs, amp=a):
        with sp.quiet():
            o = PSF(simul_params=par, wavelengthInNm=wl, nd=nd, verbose=False)
            ef = make_ef(n, 0.1, amp, 0, -1)
            o.inputs['in_ef'].set(ef)
            o.setup()
            out = []
            for k, p in enumerate(phs):
                ef.phaseInNm[:] = p * wl / (2 * np.pi)
                ef.generation_time = k
                sp.step(o, k)
                out.append(np.array(o.outputs['out_psf'].value))
            o.finalize()
        return out, np.array(o.outputs['out_int_psf'].value), float(o.outputs['out_int_sr'].value)
    N = n * nd
    y, x = np.mgrid[0:n, 0:n]
    tilt = 2 * np.pi * (ax * x + ay * y) / N
    piston = float(rng.uniform(-20, 20))
    tol = 1e-9 if c.precision == 0 else 1e-4
    (p0, pt, pp, pm), av, sr = run([phi, phi + tilt, phi + piston, phi[:, ::-1]])
    sc = p0.max()
    c.near(pt, np.roll(p0, (ay, ax), (0, 1)), 'tilt moves the psf', atol=tol, rtol=tol, scale=sc)
    c.near(pp, p0, 'piston changes the psf', atol=tol, rtol=tol, scale=sc)
    (q0,), _, _ = run([phi[:, ::-1]], amp=a[:, ::-1])
    # mirrored frames: frequency k -> -k
    idx = (-np.arange(N)) % N
    c.near(q0, np.roll(p0, N // 2, 1)[:, idx][:, np.roll(np.arange(N), N // 2)] if N % 2 == 0 else q0, 'mirrored pupil', atol=tol, rtol=tol, scale=sc)
    order = [phi + piston, phi[:, ::-1], phi + tilt, phi]
    _, av2, sr2 = run(order)
    c.near(av2, av, 'average depends on the order', atol=tol, rtol=tol, scale=sc)
    c.near(sr2, sr, 'average strehl depends on the order', rtol=tol * 10)


@CHECK.section('geometry', quick=400, thorough=20000, precisions=(0,))
def geometry(c):
    """PSF sampling: pixel size and density are reciprocal, requested pixel sizes are met by the nearest feasible one, impossible requests are refused"""
    import numpy as np
    from harness import sp
    from specula.lib.calc_psf import calc_psf_geometry, calc_psf, calc_psf_pixel_size
    rng = c.rng
    n = int(rng.integers(4, 400))
    pitch = float(10 ** rng.uniform(-3, 0))
    wl = float(rng.uniform(300, 20000))
    lod = wl * 1e-9 / (n * pitch) / 4.84813681109536e-9
    mode = sp.pick(rng, ['nd', 'size', 'none', 'both', 'large'])
    c.describe(n=n, pitch=pitch, wl=wl, mode=mode)
    with sp.quiet():
        if mode == 'both':
            return c.raises(ValueError, lambda: calc_psf_geometry(n, pitch, wl, nd=2, pixel_size_mas=lod / 2), 'both sampling parameters accepted')
        if mode == 'large':
            return c.raises(ValueError, lambda: calc_psf_geometry(n, pitch, wl, pixel_size_mas=lod * float(rng.uniform(1.001, 5))), 'too large pixel accepted')
        if mode == 'none':
            g = calc_psf_geometry(n, pitch, wl)
            c.near([g.nd, g.pixel_size_mas], [1, lod], 'default sampling', rtol=1e-9)
        elif mode == 'nd':
            nd = float(rng.uniform(1, 10))
            g = calc_psf_geometry(n, pitch, wl, nd=nd)
            c.near([g.nd, g.pixel_size_mas], [nd, lod / nd], 'requested density', rtol=1e-9)
            c.near(calc_psf_pixel_size(wl, n * pitch, nd), lod / nd, 'pixel size', rtol=1e-9)
        else:
            want = lod / float(rng.uniform(1, 10))
            g = calc_psf_geometry(n, pitch, wl, pixel_size_mas=want)
            c.near(g.pixel_size_mas, lod / g.nd, 'pixel size and density disagree', rtol=1e-9)
            c.near(g.nd * n, round(g.nd * n), 'not a whole number of pixels', rtol=1e-9)
            best = min(abs(lod * n / s - want) for s in range(max(1, int(n * 0.9)), n * 11))
            c.check(abs(g.pixel_size_mas - want) <= best * (1 + 1e-9) + 1e-12 * want, 'not the nearest pixel size', f'{g.pixel_size_mas} for {want}, best error {best}')
    m = int(rng.integers(2, 12))
    a, p = rng.uniform(0, 1, (m, m)), rng.normal(0, 3, (m, m))
    w = m + int(rng.integers(0, 7))
    got = calc_psf(p, a, imwidth=w, nocenter=True, complex_dtype=np.complex128)
    u = np.zeros((w, w), complex)
    u[:m, :m] = a * np.exp(1j * p)
    k = np.arange(w)
    F = np.exp(-2j * np.pi * np.outer(k, k) / w)
    c.near(got, np.abs(F @ u @ F) ** 2, 'calc_psf', rtol=1e-9, atol=1e-9, scale=1)
    q, tot = calc_psf(p, a, imwidth=w, normalize=True, return_total=True, complex_dtype=np.complex128)
    c.near(tot, w * w * (a ** 2).sum(), 'total of calc_psf', rtol=1e-9)
    c.near(q, np.fft.fftshift(got) / tot, 'calc_psf centred and normalised', rtol=1e-9, atol=1e-12)
    if w == m:
        c.near(calc_psf(p, a, complex_dtype=np.complex128, nocenter=True), got, 'calc_psf without padding', rtol=1e-9, atol=1e-9)


@CHECK.section('profile', quick=60, thorough=2000)
def profile(c):
    """radial profile, FWHM and encircled energy of arbitrary images against brute force"""
    import numpy as np
    from harness import sp
    from specula.lib import radial_profile as rp
    rng = c.rng
    h, w = int(rng.integers(2, 18)), int(rng.integers(2, 18))
    img = rng.uniform(0, 1, (h, w))
    cy, cx = float(rng.uniform(-2, h + 2)), float(rng.uniform(-2, w + 2))
    center = bool(rng.random() < 0.5)
    if not center:
        cy, cx = h / 2, w / 2
    dt = np.float64 if c.precision == 0 else np.float32
    tol = 1e-9 if c.precision == 0 else 1e-5
    c.describe(h=h, w=w, center=center)
    kw = dict(center_in_px_y=cy, center_in_px_x=cx) if center else {}
    p, d, k = rp.compute_radial_profile(img, dtype=dt, return_counts=True, **kw)
    yy, xx = np.mgrid[0:h, 0:w]
    r = np.hypot(yy - cy, xx - cx)
    if np.min(np.abs(r - np.round(r))) < 1e-5 and center:
        return c.skip()
    b = np.floor(r).astype(int)
    ks = np.unique(b)
    c.eq(k.sum(), h * w, 'every pixel counted once')
    if c.eq(len(p), len(ks), 'number of annuli'):
        c.near(p, [img[b == q].mean() for q in ks], 'profile', rtol=tol)
        c.near(d, [r[b == q].mean() for q in ks], 'distance', rtol=tol)
        c.eq(list(k), [(b == q).sum() for q in ks], 'counts')
        c.near((p * k).sum(), img.sum(), 'energy', rtol=tol * 10)
        ee = rp.compute_encircled_energy(p, k, dtype=dt)
        c.near(ee, np.cumsum([img[b == q].sum() for q in ks]) / img.sum(), 'encircled energy', rtol=tol * 10)
        raw = rp.compute_encircled_energy(p, k, dtype=dt, normalize=False)
        c.near(raw[-1], img.sum(), 'encircled energy not normalised', rtol=tol * 10)
        q = np.sort(rng.uniform(0, d[-1] * 1.2, 4))
        c.near(rp.get_encircled_energy_at_distance(ee, d, q, dtype=dt), np.interp(q, d, ee), 'encircled energy at distance', atol=100 * tol)
        c.near(rp.get_encircled_energy_at_distance(ee, d, float(q[0]), dtype=dt), np.interp(q[0], d, ee), 'encircled energy at one distance', atol=100 * tol)
    c.raises(ValueError, lambda: rp.compute_radial_profile(img.ravel()), '1D image accepted')
    c.raises(ValueError, lambda: rp.compute_encircled_energy(p, np.ones(len(p) + 1)), 'wrong counts accepted')
    c.raises(ValueError, lambda: rp.compute_fwhm_from_profile(p, np.ones(len(p) + 1)), 'wrong distances accepted')
    # a Gaussian has a known width and encircled energy
    N = 64
    s = float(rng.uniform(4, 9))
    y, x = np.mgrid[0:N, 0:N] - N / 2
    g = np.exp(-(x ** 2 + y ** 2) / 2 / s ** 2)
    p, d, k = rp.compute_radial_profile(g, dtype=dt, return_counts=True)
    c.near(rp.compute_fwhm_from_profile(p, d, dtype=dt), 2.3548 * s, 'FWHM of a Gaussian', rtol=0.03)
    f = rp.compute_fwhm_from_profile(p, d * 3.0, dtype=dt)
    c.near(f, 3 * 2.3548 * s, 'FWHM scales with the distance', rtol=0.03)
    prof = np.exp(-np.arange(40.) ** 2 / 2 / s ** 2)
    e = rp.compute_encircled_energy(prof, radial_distance=np.arange(40.), dtype=dt)
    c.check(np.all(np.diff(e) >= -1e-7) and abs(e[-1] - 1) < 1e-5, 'encircled energy without counts', '')
    q = float(rng.uniform(1, 2) * s)
    true = (1 - np.exp(-q ** 2 / 2 / s ** 2))
    c.near(rp.get_encircled_energy_at_distance(e, np.arange(40.) + 0.5, q, dtype=dt), true, 'encircled energy of a Gaussian', atol=0.05, rtol=0)


def build_coro(rng, kind, n, wl, fft_res):
    """(factory, declared parameters)"""
    from harness import sp
    par = sp.simul_params(pixel_pupil=n, pixel_pitch=0.1)
    kw = dict(simul_params=par, wavelengthInNm=wl, fft_res=fft_res)
    d = {}
    if rng.random() < 0.5:
        d['inn'], d['out'] = float(rng.uniform(0, 0.4)), float(rng.uniform(0.6, 1.0))
        kw['innerStopAsRatioOfPupil'], kw['outerStopAsRatioOfPupil'] = d['inn'], d['out']
    if kind == 'lyot':
        from specula.processing_objects.lyot_coronagraph import LyotCoronagraph as C
        d['iwa'] = kw['iwaInLambdaOverD'] = float(rng.uniform(0.5, 4))
        if rng.random() < 0.6:
            d['owa'] = kw['owaInLambdaOverD'] = d['iwa'] + float(rng.uniform(4, 8))
    elif kind == 'knife':
        from specula.processing_objects.lyot_coronagraph import LyotCoronagraph as C
        d['edge'] = kw['iwaInLambdaOverD'] = float(rng.uniform(0, 5))
        kw['knife_edge'] = True
    elif kind == 'four':
        from specula.processing_objects.four_quadrant_coronagraph import FourQuadrantCoronagraph as C
        d['delay'] = 3.141592653589793
        if rng.random() < 0.3:
            d['delay'] = kw['phase_delay'] = float(rng.uniform(0, 6)) if rng.random() < 0.6 else 0.0
    else:
        from specula.processing_objects.vortex_coronagraph import VortexCoronagraph as C
        d['charge'] = kw['vortexCharge'] = int(sp.pick(rng, [0, 1, 2, 4]))
        if rng.random() < 0.25:
            kw['addInVortex'] = True
            d['inv'] = True
            d['vr'], d['vc'], d['vs'] = 0.6, d['charge'], 3.141592653589793
            if rng.random() < 0.7:
                d['vr'] = kw['inVortexRadInLambdaOverD'] = float(rng.uniform(0.4, 4))
            if rng.random() < 0.7:
                d['vc'] = kw['inVortexCharge'] = int(rng.integers(-2, 4))
            if rng.random() < 0.7:
                d['vs'] = kw['inVortexShift'] = float(rng.uniform(0, 6))
    return (lambda: C(**kw)), d


def feed(o, n, wl, e, t, s0=1.0, prec=None):
    import numpy as np
    from harness import sp
    if getattr(o, '_verif_ef', None) is None:
        ef = o._verif_ef = make_ef(n, 0.1, 0, 0, -1)
        o.inputs['in_ef'].set(ef)
        ef.A[:], ef.phaseInNm[:] = np.abs(e), np.angle(e) * wl / 2 / np.pi
        ef.S0 = s0
        ef.generation_time = t
        o.setup()
    ef = o._verif_ef
    ef.A[:], ef.phaseInNm[:] = np.abs(e), np.angle(e) * wl / 2 / np.pi
    ef.S0 = s0
    ef.generation_time = t
    assert sp.step(o, t)
    out = o.outputs['out_ef']
    return np.array(out.A, dtype=float) * np.exp(2j * np.pi * np.asarray(out.phaseInNm, dtype=float) / wl), float(out.S0), out.generation_time


@CHECK.section('coronagraph', quick=120, thorough=1500)
def coronagraph(c):
    """coronagraphs are linear passive optics: superposition, piston, energy, stops, no memory; sources are blocked and transmitted as the working angles declare"""
    import numpy as np
    from harness import sp
    rng = c.rng
    kind = sp.pick(rng, ['lyot', 'knife', 'four', 'vortex'])
    n = int(rng.integers(20, 33)) * 2
    wl = float(rng.uniform(500, 2500))
    fr = float(sp.pick(rng, [3.0, 4.0, 5.0, 3.5]))
    mk, d = build_coro(rng, kind, n, wl, fr)
    c.describe(kind=kind, n=n, fft_res=fr, **d)
    with sp.quiet():
        o = mk()
        y, x = (np.mgrid[0:n, 0:n] + 0.5 - n / 2) / n
        r = np.hypot(x, y) * 2
        a = (r <= 1).astype(float)
        tol = 1e-8 if c.precision == 0 else 2e-4
        t = 0
        e1, e2 = a * np.exp(1j * smooth(rng, n, 1)), a * np.exp(1j * smooth(rng, n, 0.3)) * rng.uniform(0.2, 2)
        s0 = float(rng.uniform(0.1, 100))
        o1, s1, g = feed(o, n, wl, e1, t, s0)
        c.eq(g, t, 'coronagraph:time')
        sc = np.abs(o1).max() + np.abs(e1).max()
        T = (np.abs(o1) ** 2).sum() / (np.abs(e1) ** 2).sum()
        c.check(T <= 1 + tol, 'coronagraph:gains energy', f'{T}')
        c.near(s1, s0 * T, 'coronagraph:flux transmission', rtol=1e-5 if c.precision == 0 else 1e-3)
        o2, _, _ = feed(o, n, wl, e2, t + 1, s0)
        o3, _, _ = feed(o, n, wl, e1 + e2, t + 2, s0)
        c.near(o3, o1 + o2, 'coronagraph:superposition', atol=tol, rtol=0, scale=sc)
        ph = np.exp(1j * float(rng.uniform(0, 6)))
        o4, _, _ = feed(o, n, wl, e1 * ph * 1.7, t + 3, s0)
        c.near(o4, o1 * ph * 1.7, 'coronagraph:piston or scale', atol=tol, rtol=0, scale=sc)
        o5, _, _ = feed(mk(), n, wl, e1, t, s0)
        c.near(o5, o1, 'coronagraph:memory of earlier fields', atol=tol, rtol=0, scale=sc)
        inn, out = d.get('inn', 0), d.get('out', 1)
        px = 2.5 / n
        if kind in ('vortex', 'four') and o.fft_sampling == n and int(o.fft_totsize) % 2 == 0:
            # the same optics written out: to the focus, through the phase mask, back, through the stop
            N = int(o.fft_totsize)
            k = np.arange(N) - N // 2 + (0.5 if kind == 'four' else 0.0)
            j = np.arange(n)
            F = np.exp(-2j * np.pi * np.outer(k, j) / N)
            ky, kx = k[:, None] + 0 * k, 0 * k[:, None] + k
            rad = np.hypot(kx, ky) * n / N
            foc = F @ e1 @ F.T
            alts = []
            for ax in (0, 1, 2, 3):
                u, v = [(ky, kx), (kx, ky), (-kx, ky), (-ky, kx)][ax]
                if kind == 'vortex':
                    th_ = np.arctan2(u, v)
                    P_ = d['charge'] * th_
                    if d.get('inv'):
                        P_ = np.where(rad <= d['vr'] + 1e-9, d['vc'] * th_ + d['vs'], P_)
                    M = np.exp(1j * P_)
                else:
                    M = np.exp(1j * d['delay'] * ((u * v > 0) if ax % 2 else (u * v < 0)))
                back = F.conj().T @ (foc * M) @ F.conj() / N ** 2
                alts.append(np.abs((o1 - back)[(r < out - px) & (r > inn + px)]).max())
            edge = d.get('inv') and np.abs(rad - d['vr']).min() < 1e-6
            c.check(edge or min(alts) <= 10 * tol * sc, f'coronagraph:{kind} differs from its optics', f'{alts} of {sc}')
            c.saw('fields compared with the closed form')
        zone = (r > out + px) | (r < inn - px)
        c.check(np.abs(o1[zone]).max(initial=0) <= tol * sc, 'coronagraph:light outside the pupil stop', f'{np.abs(o1[zone]).max(initial=0)}')
        open_ = (r < min(out, 1) - px) & (r > inn + px)
        if kind == 'four' and d['delay'] == 0 or kind == 'vortex' and d['charge'] == 0 and not d.get('inv'):
            c.near(o1[open_], e1[open_], 'coronagraph:transparent mask', atol=tol, rtol=0, scale=sc)
            c.saw('transparent masks')

        def trans(ox, oy):
            f, _, _ = feed(o, n, wl, a * np.exp(2j * np.pi * (ox * x + oy * y)), trans.t, 1.)
            trans.t += 1
            return (np.abs(f) ** 2).sum() / ((a > 0) & (r <= out) & (r >= inn)).sum()
        trans.t = 10
        th = float(rng.uniform(0, 2 * np.pi))
        if kind == 'lyot':
            iwa, owa = d['iwa'], d.get('owa', n / 2)
            full = d.get('inn') is None
            for rad in [0, max(0, iwa - 1.6), iwa + 1.6, (iwa + min(owa, n / 2 - 4)) / 2, owa - 1.6, owa + 1.6, owa + 4]:
                if rad > n / 2 - 3:
                    continue
                v = trans(rad * np.cos(th), rad * np.sin(th))
                c.saw('off-axis sources')
                if iwa >= 1.5 and rad < iwa - 1.5:
                    c.check(v < 0.3, 'lyot:source inside the inner working angle transmitted', f'{v} at {rad} iwa {iwa}')
                if iwa + 1.5 < rad < owa - 1.5 and full:
                    c.check(v > 0.6, 'lyot:source between the working angles blocked', f'{v} at {rad} iwa {iwa} owa {owa}')
                if rad > owa + 1.5:
                    c.check(v < 0.3, 'lyot:source beyond the outer working angle transmitted', f'{v} at {rad} owa {owa}')
        elif kind == 'knife':
            for off in (-8, -3, -1.6, 1.6, 3, 8):
                v = trans(d['edge'] + off, float(rng.uniform(-6, 6)))
                c.saw('off-axis sources')
                if d.get('inn') is None:
                    c.check(v < 0.3 if off < 0 else v > 0.6, 'knife edge:wrong side', f'{v} at {d["edge"] + off} edge {d["edge"]}')
        elif kind == 'four' and abs(d['delay'] - np.pi) < 1e-6:
            v0 = trans(0, 0)
            q = float(rng.uniform(2, 6))
            vd = trans(q * sp.pick(rng, [-1, 1]), q * sp.pick(rng, [-1, 1]))
            va = [trans(q, 0), trans(0, q), trans(-q, 0), trans(0, -q)]
            c.saw('off-axis sources', 5)
            c.check(v0 < 0.03, 'four quadrants:on-axis source not nulled', f'{v0}')
            c.check(vd > 0.6 or d.get('inn') is not None, 'four quadrants:off-axis source blocked', f'{vd}')
            c.near(va, [va[0]] * 4, 'four quadrants:not symmetric', atol=1e-3, rtol=0)
        elif kind == 'vortex' and d['charge'] in (2, 4) and not d.get('inv'):
            v0 = trans(0, 0)
            q = float(rng.uniform(5, 8))
            va = [trans(q, 0), trans(0, q), trans(-q, 0), trans(0, -q)]
            c.saw('off-axis sources', 4)
            c.check(v0 < 0.15, 'vortex:on-axis source not nulled', f'{v0}')
            c.check(min(va) > 0.5 or d.get('inn') is not None, 'vortex:off-axis source blocked', f'{va}')
            c.near(va, [va[0]] * 4, 'vortex:not symmetric', atol=2e-2, rtol=0)
        from specula.processing_objects.lyot_coronagraph import LyotCoronagraph
    if rng.random() < 0.2:
        par = sp.simul_params(pixel_pupil=n, pixel_pitch=0.1)
        c.raises(ValueError, lambda: LyotCoronagraph(simul_params=par, wavelengthInNm=wl, iwaInLambdaOverD=1, innerStopAsRatioOfPupil=0.8, outerStopAsRatioOfPupil=0.2), 'inverted stop accepted')
        c.raises(ValueError, lambda: LyotCoronagraph(simul_params=par, wavelengthInNm=wl, iwaInLambdaOverD=1, owaInLambdaOverD=9, knife_edge=True), 'knife edge with OWA accepted')


@CHECK.section('apodizer', quick=16, thorough=120, chunk=4)
def apodizer(c):
    """apodizing phase plates are phase only, fill the declared dark hole with the declared contrast; the phase-apodized Lyot adds its mask and stop"""
    import numpy as np
    from harness import sp
    from specula.processing_objects.apodizer_coronagraph import APPCoronagraph, PAPLCoronagraph
    rng = c.rng
    n = int(rng.integers(16, 25)) * 2
    wl = 1000.
    fr = float(sp.pick(rng, [3.0, 4.0, 2.0]))
    par = sp.simul_params(pixel_pupil=n, pixel_pitch=0.1)
    y, x = (np.mgrid[0:n, 0:n] + 0.5 - n / 2) / n
    r = np.hypot(x, y) * 2
    a = (r <= 1).astype(float)
    iwa, owa = float(rng.uniform(2, 3.5)), float(rng.uniform(5, 7))
    con = float(10 ** rng.uniform(-4.5, -3))
    sym = bool(rng.random() < 0.2)
    kind = sp.pick(rng, ['app', 'papl', 'papl-knife'])
    kw = dict(simul_params=par, wavelengthInNm=wl, pupil=a, contrastInDarkHole=con, iwaInLambdaOverD=iwa, owaInLambdaOverD=owa, make_symmetric=sym, fft_res=fr)
    inn, out = 0.0, 1.0
    if kind != 'app':
        inn, out = float(rng.uniform(0, 0.3)), float(rng.uniform(0.7, 1))
        kw.update(innerStopAsRatioOfPupil=inn, outerStopAsRatioOfPupil=out, knife_edge=kind == 'papl-knife', fpmIWAInLambdaOverD=2.0)
        if kind == 'papl' and rng.random() < 0.5:
            kw['fpmOWAInLambdaOverD'] = 9.0
    c.describe(kind=kind, n=n, fft_res=fr, iwa=iwa, owa=owa, con=con, sym=sym, inn=inn, out=out)
    with sp.quiet():
        try:
            o = (APPCoronagraph if kind == 'app' else PAPLCoronagraph)(**kw)
        except Warning:
            c.saw('designs not converged')
            return
        tol = 1e-8 if c.precision == 0 else 2e-4
        s = np.exp(1j * smooth(rng, n, 0.5))
        if kind == 'app':
            f, s0, _ = feed(o, n, wl, a, 0, 1.)
            c.near(np.abs(f), a, 'apodizer:not phase only', atol=tol * 10, rtol=0)
            c.near(s0, 1, 'apodizer:not transparent', rtol=1e-4)
            N = o.fft_totsize
            u = np.zeros((N, N), complex)
            u[:n, :n] = f
            p = np.abs(np.fft.fftshift(np.fft.fft2(u))) ** 2
            p /= p.max()
            ky, kx = (np.mgrid[0:N, 0:N] - N // 2) * n / N
            rad = np.hypot(kx, ky)
            m = 1.5 * n / N
            hole = (rad > iwa + m) & (rad < owa - m)
            if not sym:
                hole &= kx > iwa + m
            if hole.sum() == 0:
                return c.skip()
            c.saw('dark hole pixels', int(hole.sum()))
            c.check(p[hole].max() < con * (1.5 if c.precision == 0 else 3), 'apodizer:dark hole', f'{p[hole].max()} for {con}')
            g, _, _ = feed(o, n, wl, a * s, 1, 1.)
            c.near(g, f * s, 'apodizer:not a plate', atol=tol * 10, rtol=0)
        else:
            f, s0, _ = feed(o, n, wl, a, 0, 1.)
            px = 2.5 / n
            zone = (r > out + px) | (r < inn - px)
            c.check(np.abs(f[zone]).max(initial=0) < 1e-6, 'papl:light outside the pupil stop', f'{np.abs(f[zone]).max(initial=0)}')

            def trans(ox, oy=0.):
                g, _, _ = feed(o, n, wl, a * np.exp(2j * np.pi * (ox * x + oy * y)) / plate(o), trans.t, 1.)
                trans.t += 1
                return (np.abs(g) ** 2).sum() / ((r <= out) & (r >= inn)).sum()
            trans.t = 5

            def plate(o):
                ap = np.asarray(o.apodizer, dtype=complex)
                return np.where(np.abs(ap) > 0, ap, 1)
            lim = 0.9 * inn  # an inner stop removes part of the diffracted light of transmitted sources too
            if kind == 'papl-knife':
                vs = [(q, trans(q)) for q in (-6, -1, 0.4, 3.6, 7)]
                for q, v in vs:
                    c.check(v < 0.35 if q < 2 else v > 0.55 - lim, 'papl:knife edge', f'{v} at {q}')
            else:
                owa2 = kw.get('fpmOWAInLambdaOverD', 1e9)
                for q in (0, 0.4, 3.6, 5, 10.6, 12):
                    v = trans(q)
                    if q > n / 2 - 3:
                        continue
                    if q < 1 or q > owa2:
                        c.check(v < 0.35, 'papl:blocked zone', f'{v} at {q}')
                    elif q < owa2 - 1.5:
                        c.check(v > 0.55 - lim, 'papl:transmitted zone', f'{v} at {q}')
            c.saw('off-axis sources', 5)


def least_squares_unwrap(w, known=False):
    """least-squares solution of the wrapped gradients, dense; known=True: with the divergence of the first and last columns replaced by their horizontal part"""
    import numpy as np
    n, m = w.shape
    rows, rhs = [], []
    idx = np.arange(n * m).reshape(n, m)

    def wr(d):
        return np.mod(d + np.pi, 2 * np.pi) - np.pi
    dx, dy = wr(np.diff(w, axis=1)), wr(np.diff(w, axis=0))
    G = np.zeros((dx.size + dy.size, n * m))
    k = np.arange(dx.size)
    G[k, idx[:, 1:].ravel()] = 1
    G[k, idx[:, :-1].ravel()] = -1
    k = dx.size + np.arange(dy.size)
    G[k, idx[1:].ravel()] = 1
    G[k, idx[:-1].ravel()] = -1
    b = np.concatenate([dx.ravel(), dy.ravel()])
    rhs = G.T @ b
    if known:
        gx = (G[:dx.size].T @ b[:dx.size]).reshape(n, m)
        gy = (G[dx.size:].T @ b[dx.size:]).reshape(n, m)
        full = gx + gy
        full[1:-1, 0], full[1:-1, -1] = gx[1:-1, 0], gx[1:-1, -1]
        rhs = full.ravel()
        rhs = rhs - rhs.mean()
    L = G.T @ G
    sol = np.linalg.lstsq(L, rhs, rcond=None)[0]
    return (sol - sol.mean()).reshape(n, m)


@CHECK.section('modal', quick=160, thorough=2500)
def modal(c):
    """modal analysis recovers the coefficients of known combinations, for single inputs and lists, from the pixels of its mask only, without touching shared data"""
    import numpy as np
    from harness import sp
    from specula.processing_objects.modal_analysis import ModalAnalysis
    from specula.data_objects.ifunc import IFunc
    from specula.data_objects.ifunc_inv import IFuncInv
    from specula.data_objects.pupilstop import Pupilstop
    rng = c.rng
    n = int(rng.integers(5, 13)) * 2
    nm = int(rng.integers(2, 9))
    mode = sp.pick(rng, ['zern', 'ifunc', 'inv', 'both'])
    cut = bool(rng.random() < 0.5)
    nlist = int(rng.integers(1, 4)) if rng.random() < 0.5 else 0
    dorms = bool(rng.random() < 0.5)
    mask = pupil(rng, n, sp.pick(rng, ['round', 'obs', 'full']))
    c.describe(mode=mode, n=n, nm=nm, cut=cut, nlist=nlist, dorms=dorms)
    npix = int(mask.sum())
    tol = 1e-8 if c.precision == 0 else 2e-3
    kw = dict(dorms=dorms)
    if nlist:
        kw['n_inputs'] = nlist
    m_use = nm
    if mode == 'zern':
        kw.update(type_str=sp.pick(rng, ['zernike', 'zern', 'Zernike']), npixels=n, nmodes=nm)
        stop = None
        if rng.random() < 0.5:
            par = sp.simul_params(pixel_pupil=n)
            stop = Pupilstop(par, input_mask=mask * rng.uniform(0.5, 1))
            kw['pupilstop'] = stop
        else:
            kw['obsratio'] = float(rng.uniform(0, 0.3))
        with sp.quiet():
            o = ModalAnalysis(**kw)
        from specula.lib.compute_zern_ifunc import compute_zern_ifunc
        with sp.quiet():
            modes, mk = compute_zern_ifunc(n, nzern=nm, obsratio=kw.get('obsratio'), mask=None if stop is None else (np.asarray(stop.A) > 0).astype(float), dtype=np.float64, xp=np)
        modes, mask = np.asarray(modes, float), np.asarray(mk) > 0
        pinv = np.linalg.pinv(modes)
        shared = []
    else:
        modes = rng.normal(0, 1, (nm, npix)) + 0.3
        if c.precision:
            modes = modes.astype(np.float32).astype(float)
        if np.linalg.cond(modes) > 30:
            return c.skip()
        f = IFunc(modes.copy(), mask=mask.copy())
        with sp.quiet():
            inv = f.inverse()
        if mode != 'ifunc' and rng.random() < 0.5:
            inv = IFuncInv(rng.normal(0, 1, (npix, nm)), mask=mask.copy())
        m_use = int(rng.integers(1, nm + 1)) if cut else nm
        if cut:
            kw['nmodes'] = m_use
        if mode in ('ifunc', 'both'):
            kw['ifunc'] = f
        if mode in ('inv', 'both'):
            kw['ifunc_inv'] = inv
        iv = np.array(inv.ifunc_inv, dtype=float)
        with sp.quiet():
            o = ModalAnalysis(**kw)
        pinv = np.linalg.pinv(modes[:m_use]) if mode == 'ifunc' else iv[:, :m_use]
        c.check(f.size == (nm, npix) and np.allclose(f.influence_function, modes, rtol=1e-6) and inv.size == (npix, nm) and np.allclose(inv.ifunc_inv, iv), 'modal analysis:shared influence functions modified', f'{f.size} {inv.size}')
        modes = modes[:m_use]
        mask = mask > 0
    nin = max(nlist, 1)
    efs = [make_ef(n, 0.1, 1, 0, -1) for _ in range(nin)]
    if nlist:
        o.inputs['in_ef_list'].set(efs)
        outs = o.outputs['out_modes_list']
        c.eq(len(outs), nlist, 'modal analysis:outputs of the list')
    else:
        o.inputs['in_ef'].set(efs[0])
        outs = [o.outputs['out_modes']]
    with sp.quiet():
        o.setup()
    for k in range(int(rng.integers(1, 4))):
        co = rng.normal(0, 100, (nin, modes.shape[0]))
        for q in range(nin):
            ph = rng.normal(0, 1e4, (n, n))
            known = rng.random() < 0.7
            w = co[q] @ modes if known else rng.normal(0, 50, int(mask.sum()))
            ph[mask] = w
            efs[q].phaseInNm[:] = ph
            efs[q].generation_time = k
            if q == 0:
                ws = []
            ws.append((known, w, np.array(efs[q].phaseInNm)))
        with sp.quiet():
            sp.step(o, k)
        for q in range(nin):
            known, w, ph = ws[q]
            c.check(np.array_equal(ph, efs[q].phaseInNm), 'modal analysis:input modified', '')
            got = np.asarray(outs[q].value, dtype=float)
            want = w @ pinv
            c.near(got, want, 'modal analysis', atol=tol * max(1, np.abs(want).max(), np.abs(w).max() * np.abs(pinv).sum(0).max()), rtol=0)
            if known and mode in ('zern', 'ifunc'):
                c.near(got, co[q], 'modal analysis:known combination not recovered', atol=tol * 3000, rtol=0)
            c.check(outs[q].generation_time == k, 'modal analysis:time', f'{outs[q].generation_time} {k}')
            c.saw('fields projected')
        if dorms and nin == 1:
            c.near(np.asarray(o.outputs['rms'].value).ravel()[0], ws[0][1].std(), 'modal analysis:rms', rtol=1e-6 if c.precision == 0 else 1e-3)
            c.eq(o.outputs['rms'].generation_time, k, 'modal analysis:rms time')
    if nlist:
        with sp.quiet():
            o2 = ModalAnalysis(**{**kw, 'n_inputs': nlist + 1})
            o2.inputs['in_ef_list'].set(efs)
            c.raises(ValueError, o2.setup, 'wrong number of inputs accepted')
    c.raises(ValueError, lambda: ModalAnalysis(npixels=n, nmodes=3), 'modal analysis without modes accepted')


@CHECK.section('unwrap', quick=40, thorough=800)
def unwrap(c):
    """physical wavefronts are unwrapped by least squares: exact for smooth phases, insensitive to where the 2 pi jumps are"""
    import numpy as np
    from harness import sp
    from specula.processing_objects.modal_analysis import ModalAnalysis
    from specula.data_objects.ifunc import IFunc
    rng = c.rng
    n = int(rng.integers(5, 12))
    nm = 4
    wl = float(rng.uniform(500, 2000))
    y, x = np.mgrid[0:n, 0:n] / n
    ph = float(rng.uniform(-2, 2)) * x * n + float(rng.uniform(-2, 2)) * y * n + rng.normal(0, 0.3) * np.cos(5 * x + 3 * y) + float(rng.uniform(-9, 9))
    f = IFunc(rng.normal(0, 1, (nm, n * n)), mask=np.ones((n, n)))
    c.describe(n=n, wl=wl)
    with sp.quiet():
        o = ModalAnalysis(ifunc=f, wavelengthInNm=wl)
        pinv = np.asarray(f.inverse().ifunc_inv, dtype=float)
        ef = make_ef(n, 0.1, 1, np.angle(np.exp(1j * ph)) * wl / 2 / np.pi, 0)
        o.inputs['in_ef'].set(ef)
        o.setup()
        sp.step(o, 0)
    got = np.asarray(o.outputs['out_modes'].value, dtype=float)
    tol = 1e-7 if c.precision == 0 else 2e-3
    want = (ph - ph.mean()).ravel() * wl / 2 / np.pi @ pinv
    s = wl * n
    sc = np.abs(pinv).sum(0).max() * s
    c.saw('wrapped fields')
    ok = np.abs(got - want).max() <= tol * sc
    bad = least_squares_unwrap(np.angle(np.exp(1j * ph)), known=True).ravel() * wl / 2 / np.pi @ pinv
    c.check(ok or np.abs(got - bad).max() > tol * sc, 'unwrap:vertical-gradients-of-first-and-last-columns-lost', f'{got} instead of {want}')
    c.check(ok or np.abs(got - bad).max() <= tol * sc, 'unwrap:not the least squares solution', f'{got} instead of {want}')


@CHECK.section('simulation', quick=4, thorough=40, chunk=2, timeout=300)
def simulation(c):
    """in complete simulations, the averages published at the end are those of the fields recorded along the run"""
    import numpy as np
    from harness import sp, zoo, monitor
    rng = c.rng
    nsteps = int(rng.integers(3, 8))
    par, info = zoo.system(rng, nsteps=nsteps, prec=c.precision, root='.')
    ef = f"prop.out_{sp.pick(rng, info['srcs'])}_ef"
    dt = 0.001
    kst = int(rng.integers(0, nsteps))
    wl, nd = float(rng.uniform(600, 2200)), int(rng.integers(1, 4))
    for nm, st in (('x_psf', kst), ('x_coro', 0)):
        par[nm] = {'class': 'PSF' if nm == 'x_psf' else 'PsfCoronagraph', 'simul_params_ref': 'main', 'wavelengthInNm': wl, 'nd': nd, 'start_time': round(st * dt, 9), 'verbose': False,
                   'inputs': {'in_ef': ef}, 'outputs': ['out_psf', 'out_sr', 'out_int_psf', 'out_int_sr', 'out_std_psf']}
    c.describe(nsteps=nsteps, ef=ef, kst=kst, nd=nd)
    s, mon = monitor.run_monitored(par, isolation=False, keep_values=True)
    src, out = ef.split('.')
    rec = [(t, v[out][0]) for t, v in mon.values[src]]
    led = []
    for t, v in rec:
        a, phn = np.real(v[0]).astype(float), np.real(v[1]).astype(float)
        led.append((t, a, phn * 2 * np.pi / wl))
    o, q = s.objs['x_psf'], s.objs['x_coro']
    size = np.asarray(o.outputs['out_int_psf'].value).shape[0]
    P = [(t, ref_psf(a, p, size)[0]) for t, a, p in led]
    tol = 1e-8 if c.precision == 0 else 1e-3
    m = np.mean([p for t, p in P if t >= kst * 1_000_000], axis=0)
    c.near(o.outputs['out_int_psf'].value, m, 'simulation:average psf', atol=tol, rtol=tol, scale=m.max())
    m = np.mean([p for t, p in P], axis=0)
    c.near(q.outputs['out_int_psf'].value, m, 'simulation:average psf', atol=tol, rtol=tol, scale=m.max())
    a0 = led[0][1]
    srs = [abs(np.sum(a * np.exp(1j * p))) ** 2 / np.sum(a ** 2) * np.sum(a0 ** 2) / np.sum(a0) ** 2 for t, a, p in led]
    c.near(q.outputs['out_int_sr'].value, np.mean(srs), 'simulation:average strehl', rtol=tol * 10, atol=tol)
    c.saw('fields recorded', len(led))
