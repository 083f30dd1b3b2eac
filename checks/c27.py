"""C27: model-based estimators (LIFT, SPRINT, SynIM interaction matrices, spot monitor, elongation covariance) recover what produced their data."""
from harness.vf import CheckDef
CHECK = CheckDef('C27', rule=(
    'Synthetic data made from known parameters - focal-plane images of random Zernike aberrations, slope sequences of a modulated mirror seen through a known mis-registration (for the pyramid: through a real pyramid built with that '
    'mis-registration), Moffat spots, laser-launch geometries - are given to the real estimators; the estimates are compared with the parameters that made the data, the generated interaction matrices with push-pull measurements on the '
    'real DM / Shack-Hartmann / slope computer, reconstructors with their definition, covariance matrices with the closed-form inverse. Distinct by parameters.'),
    assumptions=['LIFT tip and tilt are judged modulo one detector pixel (the frame is recentred by whole pixels), and most images of a batch must be found, not each: the search is iterative',
                 'SPRINT is judged with one modulated mode and mis-registrations inside the linear range of that mode',
                 'the geometric model is compared with well-sampled spots and interior sub-apertures',
                 'the coordinates of the sub-apertures in the elongation model are those pinned by the reference data of the test suite'])


# ---------------------------------------------------------------------- LIFT
@CHECK.section('lift', quick=16, thorough=400, timeout=600)
def lift(c):
    """The phase estimated from an in-focus astigmatic image is the phase that produced the image."""
    import numpy as np
    from harness import sp
    from specula.data_objects.ifunc import IFunc
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.simul_params import SimulParams
    from specula.processing_objects.lift import Lift
    rng = c.rng
    N, ratio = sp.pick(rng, [(48, 0.5), (64, 0.5), (96, 0.5)])
    nz = int(rng.integers(4, 10))
    D, wl = float(rng.uniform(1, 12)), float(rng.choice([750., 1650., 2200.]))
    obs = float(rng.choice([0.0, 0.0, 0.2]))
    n_it = int(rng.integers(15, 35))
    off = int(rng.choice([0, 0, 6]))                 # frame bigger than the grid
    ref = np.zeros(nz)
    ref[3] = float(rng.choice([-1, 1])) * rng.uniform(0.8, 1.0)
    a = rng.normal(size=nz) * float(rng.uniform(0.02, 0.1))
    flux = 10 ** rng.uniform(3, 7)
    nframes = 15
    bad = []
    c.describe(N=N, ratio=ratio, nz=nz, D=D, wl=wl, obs=obs, ref=ref.round(3).tolist(), a=a.round(4).tolist(), flux=flux, prec=c.precision, n_it=n_it, off=off, nframes=nframes)
    ld = wl * 1e-9 / D * 206264.806247
    z = IFunc(type_str='zernike', nmodes=nz, npixels=N, obsratio=obs, target_device_idx=-1)
    L = Lift(SimulParams(pixel_pupil=N, pixel_pitch=D / N), 0, nz, wl, ld * ratio, 32, 8, z, ref.tolist(), n_iter=n_it, target_device_idx=-1)
    c.check(L.outputs['out_zern'].value.shape == (nz,), 'lift:shape', 'one coefficient per Zernike mode')
    G, M = L.gridSize, int(round(N / ratio))
    m = np.asarray(z.mask_inf_func, dtype=float)
    side = G + off
    px = Pixels(side, side, target_device_idx=-1)
    L.inputs['in_pixels'].set(px)
    L.setup()
    nm = wl / 2 / np.pi
    # the shift of the image, in nm of the tip mode, for one pixel, in nm of the tip mode
    pix = np.pi / 2 / (1 / ratio) * nm
    for f in range(nframes):
        if f:
            a = rng.normal(size=nz) * float(rng.uniform(0.02, 0.1))
        ph = np.zeros((N, N))
        ph[np.where(m > 0)] = (a + ref) @ np.asarray(z.influence_function, dtype=float)
        E = np.zeros((M, M), complex)
        E[:N, :N] = m * np.exp(1j * ph)
        im = np.abs(np.fft.fftshift(np.fft.fft2(E))) ** 2
        im *= flux / im.sum()
        k = M // 2
        im = im[k - side // 2:k + side // 2, k - side // 2:k + side // 2]
        px.pixels = im.astype(px.dtype)
        px.generation_time = f + 1
        L.check_ready(f + 1)
        try:
            L.trigger()
        except ValueError as e:
            if 'broadcast' not in str(e) and 'zero-size' not in str(e):
                raise
            bad.append(f'frame {f}: the search left the frame')       # diverged: the window slid over the border
            continue
        L.post_trigger()
        got = np.asarray(L.outputs['out_zern'].value, dtype=float)
        c.eq(L.outputs['out_zern'].generation_time, f + 1, 'lift:time', 'estimate stamped with the time of its frame')
        err = got - a * nm
        err[:2] -= np.round(err[:2] / pix) * pix
        tol = 0.02 * wl
        if not np.all(np.abs(err) < tol):
            bad.append(f'frame {f}: estimated {got.round(1).tolist()} nm for {(a * nm).round(1).tolist()} (error {err.round(1).tolist()}, allowed {tol:.1f})')
        c.saw('coefficients well above the tolerance', int((np.abs(a[2:] * nm) > tol).sum()))
    # the iterative search fails on a few per cent of the images (about one in twenty here); most must be found
    c.check(len(bad) <= nframes // 2, 'lift:coefficients', f'{len(bad)} of {nframes} images not found: {bad[:3]}')
    c.saw("images found", nframes - len(bad))
    c.saw('images', nframes)


# ------------------------------------------------------------------ spot monitor
@CHECK.section('spot', quick=60, thorough=6000, timeout=300)
def spot(c):
    """The summed sub-aperture spot, its Moffat parameters and residuals are those of the image."""
    import numpy as np
    from harness import sp
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.subap_data import SubapData
    from specula.processing_objects.spot_monitor import SpotMonitor
    rng = c.rng
    n, npx = int(rng.integers(1, 7)), int(rng.integers(9, 21))
    side = n * npx
    sel = np.flatnonzero(rng.random(n * n) < 0.7)
    if len(sel) == 0:
        sel = np.array([int(rng.integers(n * n))])
    frames = int(rng.integers(1, 4))
    gauss = bool(rng.random() < 0.2)                 # a spot that is no Moffat: only the bookkeeping is judged
    idx = []
    for s in sel:
        i, j = divmod(int(s), n)
        f = np.zeros((side, side), bool)
        f[i * npx:(i + 1) * npx, j * npx:(j + 1) * npx] = True
        idx.append(np.flatnonzero(f))
    sub = SubapData(idxs=np.array(idx), display_map=sel, nx=n, ny=n)
    o = SpotMonitor(sub)
    pix = Pixels(side, side)
    o.inputs['in_pixels'].set(pix)
    o.setup()
    yy, xx = np.mgrid[:npx, :npx].astype(float)
    rec = []
    for t in range(1, frames + 1):
        w = rng.uniform(0.5, 1.5, len(sel))
        x0, y0 = (npx - 1) / 2 + rng.uniform(-1.2, 1.2, 2)
        gam, alp, sky, amp = float(rng.uniform(1.5, npx / 5)), float(rng.uniform(1.6, 4.5)), float(rng.choice([0.0, rng.uniform(0.1, 5)])), 10 ** float(rng.uniform(1.5, 4.5))
        r2 = (xx - x0) ** 2 + (yy - y0) ** 2
        prof = np.exp(-np.maximum(np.abs(xx - x0), np.abs(yy - y0)) / gam) if gauss else (1 + r2 / gam ** 2) ** (-alp)
        im = rng.uniform(0, 1e3, (side, side))       # garbage outside the valid sub-apertures
        for s, ww in zip(sel, w):
            i, j = divmod(int(s), n)
            im[i * npx:(i + 1) * npx, j * npx:(j + 1) * npx] = sky / len(sel) + amp * ww / w.sum() * prof
        rec.append((x0, y0, gam, alp, sky, amp))
        before = im.astype(pix.dtype)
        pix.pixels = before.copy()
        pix.generation_time = t
        o.check_ready(t)
        o.trigger()
        o.post_trigger()
        S = np.asarray(o.outputs['out_sum_pixels'].pixels, dtype=float)
        want = sum(before[np.unravel_index(k, before.shape)].reshape(npx, npx).astype(float) for k in idx)
        tol = 1e-10 if c.precision == 0 else 1e-5
        c.near(S, want, 'spot:sum', rtol=tol, scale=float(want.max()), msg='sum of the valid sub-apertures')
        c.eq(pix.pixels.tobytes(), before.tobytes(), 'spot:input', 'input frame untouched')
        md, rs = (np.asarray(o.outputs[k].pixels, dtype=float) for k in ('out_model_pixels', 'out_residual_pixels'))
        c.near(md + rs, S, 'spot:model+residual', rtol=1e-5, scale=float(want.max()), msg='model plus residual is the summed image')
        p = np.asarray(o.outputs['out_params'].value, dtype=float)
        for k, v in o.outputs.items():
            c.eq(v.generation_time, t, f'spot:time:{k}', 'every output stamped')
        c.near(p[7], np.mean(rs ** 2), 'spot:chi2', rtol=1e-3, atol=1e-9 * want.max() ** 2, msg='mean squared residual')
        c.near(p[6], 2 * p[3] * np.sqrt(2 ** (1 / p[4]) - 1), 'spot:fwhm-formula', rtol=1e-4, msg='FWHM of the fitted Moffat')
        r2f = (xx - p[1]) ** 2 + (yy - p[2]) ** 2
        c.near(md, p[5] + p[0] * (1 + r2f / p[3] ** 2) ** (-p[4]), 'spot:model-of-params', rtol=1e-4, scale=float(want.max()), msg='model image is the Moffat of the published parameters')
        c.near(o.centroid, p[1:3], 'spot:centroid', rtol=1e-7, msg='centroid property')
        c.near([o.amplitude, o.fwhm, o.sky_level, o.fit_quality['chi2']], [p[0], p[6], p[5], p[7]], 'spot:properties', rtol=1e-7, msg='properties read the parameters')
        c.check(bool(o.fit_quality['success']) == bool(p[8]), 'spot:success', 'success flag')
        if not gauss:
            c.eq(float(p[8]), 1.0, 'spot:success', 'a noiseless Moffat is fitted')
            truth = np.array([amp, x0, y0, gam, alp, sky])
            # a wide Moffat in a small box is nearly degenerate with the sky: the well-conditioned parameters are judged tightly
            c.near(p[1:3], truth[1:3], 'spot:centre', rtol=0, atol=0.02, msg='spot centre (x then y)')
            fw = 2 * gam * np.sqrt(2 ** (1 / alp) - 1)
            c.near(p[6], fw, 'spot:fwhm', rtol=0.05, msg='FWHM of the spot')
            c.near(p[0], amp, 'spot:amplitude', rtol=0.05, msg='amplitude')
            c.near(p[5], sky, 'spot:sky', rtol=0, atol=0.05 * amp, msg='sky level')
    c.describe(n=n, npx=npx, sel=sel.tolist(), frames=frames, gauss=gauss, spots=[[round(float(v), 3) for v in r] for r in rec], prec=c.precision)
    c.saw('spots fitted', frames)


# ---------------------------------------------------- elongation covariance
@CHECK.section('elongation', quick=300, thorough=20000, precisions=(0,))
def elongation(c):
    """Inverse noise covariance of elongated spots: inverse of the covariance of a spot stretched along the launcher direction."""
    import numpy as np
    from harness import sp
    from specula.lib.calc_noise_cov_elong import calc_noise_cov_elong
    rng = c.rng
    D, zen, thick, h = float(rng.uniform(4, 40)), float(rng.choice([0., 30., rng.uniform(0, 60)])), float(rng.uniform(5e3, 20e3)), float(rng.uniform(80e3, 100e3))
    n = int(rng.integers(2, 14))
    LL = [float(v) for v in rng.uniform(-1.2, 1.2, 2) * D] + [0.0]
    idx = np.flatnonzero(rng.random(n * n) < rng.uniform(0.3, 1))
    if len(idx) == 0:
        idx = np.array([0])
    fwhm, s2 = float(rng.uniform(0.5, 2)), 10 ** float(rng.uniform(-3, 3))
    tg = float(rng.choice([0.0, 0.0, rng.uniform(0.05, 0.9)]))
    diag = bool(rng.random() < 0.4)
    default_h = bool(rng.random() < 0.2)
    if default_h:
        h = 90e3
    c.describe(D=D, zen=zen, thick=thick, h=h, n=n, LL=LL, idx=idx.tolist(), fwhm=fwhm, s2=s2, tg=tg, diag=diag)
    A = np.asarray(calc_noise_cov_elong(D, zen, thick, LL, idx, n, 5.0, fwhm, s2, tg, h_in_m=None if default_h else h, only_diag=diag))
    k = len(idx)
    c.eq(A.shape, (2 * k, 2 * k), 'elong:shape', 'slopes x slopes')
    c.near(A, A.T, 'elong:symmetric', rtol=1e-10, scale=1 / s2)
    iy, ix = np.divmod(idx, n)
    x = (ix - n / 2) * D / n - LL[0]
    y = (iy - n / 2) * D / n - LL[1]
    am = 1 / np.cos(np.radians(zen))
    ha, ta = h * am, thick * am
    # apparent positions of the bottom and of the top of the layer, along each axis
    ang = lambda q: (np.arctan2(q, ha - ta / 2) - np.arctan2(q, ha + ta / 2)) * 180 / np.pi * 3600
    bx, by = ang(x), ang(y)
    want = np.zeros((2 * k, 2 * k))
    if diag:
        d = np.r_[1 / (1 + bx ** 2 / fwhm ** 2), 1 / (1 + by ** 2 / fwhm ** 2)] / s2
        far = np.abs(np.r_[x, y])
        nt = int(tg * 2 * k)
        cut = np.sort(far)[2 * k - nt] if nt else np.inf
        if nt and np.any(np.abs(far - cut) < 1e-9) and np.sum(np.abs(far - cut) < 1e-9) > 1:
            # ties on the truncation limit: which of them is truncated is free
            tie = np.abs(far - cut) < 1e-9
            got = np.diag(A)
            c.near(got[~tie & (far > cut)], d[~tie & (far > cut)] / 4, 'elong:diag', rtol=1e-8)
            c.near(got[~tie & (far < cut)], d[~tie & (far < cut)], 'elong:diag', rtol=1e-8)
            c.eq(int(np.sum(np.abs(got - d) > 1e-6 * d)), nt, 'elong:ntruncated')
        else:
            d = np.where(far >= cut, d / 4, d)
            c.near(np.diag(A), d, 'elong:diag', rtol=1e-8, scale=1 / s2)
        c.near(A - np.diag(np.diag(A)), 0, 'elong:offdiag', rtol=0, atol=0)
        c.saw('diagonal matrices', 1)
        return
    far = np.maximum(np.abs(x), np.abs(y))
    nt = int(tg * k)
    order = np.sort(far)
    cut = order[k - nt] if nt else np.inf
    tie = np.abs(far - cut) < 1e-9 if nt else np.zeros(k, bool)
    if tie.sum() == 1:
        tie[:] = False
    ntrunc = 0
    for i in range(k):
        b = np.array([bx[i], by[i]])
        full = np.linalg.inv(s2 * (np.eye(2) + np.outer(b, b) / fwhm ** 2))     # covariance of a spot stretched along b
        u = b / np.hypot(*b) if np.hypot(*b) > 0 else np.array([np.nan, np.nan])
        trunc = (np.eye(2) - np.outer(u, u)) / s2                                # nothing known along the elongation
        B = A[np.ix_([i, i + k], [i, i + k])]
        if tie[i]:
            ok = np.allclose(B, full, rtol=1e-6, atol=1e-8 / s2) or np.allclose(B, trunc, rtol=1e-6, atol=1e-8 / s2)
            c.check(ok, 'elong:tie', f'sub-aperture {i}: neither the full nor the truncated form')
        elif nt and far[i] >= cut - 1e-9:
            if np.isfinite(u).all():
                c.near(B, trunc, 'elong:truncated', rtol=1e-6, scale=1 / s2)
            ntrunc += 1
        else:
            c.near(B, full, 'elong:full', rtol=1e-6, scale=1 / s2)
        want[np.ix_([i, i + k], [i, i + k])] = B
    c.near(A, want, 'elong:coupling', rtol=0, atol=0, msg='different sub-apertures are uncorrelated')
    w = np.linalg.eigvalsh(A)
    c.check(np.all(np.isfinite(w)) and w.min() > -1e-9 / s2, 'elong:psd', 'an inverse covariance is positive semi-definite')
    c.saw('sub-apertures', k)
    c.saw('truncated sub-apertures', ntrunc)


@CHECK.section('elongation_mirror', quick=30, thorough=300, precisions=(0,))
def elongation_mirror(c):
    """Mirroring the launcher mirrors the covariance of the mirrored sub-apertures."""
    import numpy as np
    from specula.lib.calc_noise_cov_elong import calc_noise_cov_elong
    rng = c.rng
    n, D, fwhm = int(rng.integers(2, 12)), float(rng.uniform(4, 40)), float(rng.uniform(0.5, 2))
    lx, ly = (float(v) for v in rng.uniform(-0.8, 0.8, 2) * D)
    prof = bool(rng.random() < 0.15)
    c.describe(n=n, D=D, fwhm=fwhm, lx=lx, ly=ly, prof=prof)
    idx = np.arange(n * n)
    kw = dict(h_in_m=90e3, only_diag=False, eta_is_not_one=prof)
    A = np.asarray(calc_noise_cov_elong(D, 0.0, 10e3, [lx, ly, 0.], idx, n, 8.0, fwhm, 1.0, 0.0, **kw))
    B = np.asarray(calc_noise_cov_elong(D, 0.0, 10e3, [-lx, ly, 0.], idx, n, 8.0, fwhm, 1.0, 0.0, **kw))
    C = np.asarray(calc_noise_cov_elong(D, 0.0, 10e3, [ly, lx, 0.], idx, n, 8.0, fwhm, 1.0, 0.0, **kw))
    m = n * n
    ii = np.arange(m)
    tr = (ii % n) * n + ii // n
    c.near(np.diag(C)[:m][tr], np.diag(A)[m:], 'elong:transposed', rtol=1e-2 if prof else 1e-8, atol=2e-2 if prof else 0, msg='exchanging the axes exchanges x and y')
    fl = (ii // n) * n + (n - 1 - ii % n)
    if not prof:
        c.near(np.diag(B)[:m][fl], np.diag(A)[:m], 'elong:corner-coordinates', rtol=1e-8, msg='mirrored launcher, mirrored sub-apertures')
    c.saw('mirrored launchers', 1)


# --------------------------------------------- Shack-Hartmann system for SynIM
def _sh_system(rng, sign=1, zern=None, coarsest=6):
    """DM with smooth modes on a square pupil, Shack-Hartmann with well sampled spots, sub-apertures from the real calibrator"""
    import numpy as np
    from harness import sp
    from specula.data_objects.electric_field import ElectricField
    from specula.data_objects.ifunc import IFunc
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.simul_params import SimulParams
    from specula.data_objects.source import Source
    from specula.processing_objects.dm import DM
    from specula.processing_objects.sh import SH
    from specula.processing_objects.sh_slopec import ShSlopec
    from specula.processing_objects.sh_subap_calibrator import ShSubapCalibrator
    ns = int(rng.integers(coarsest, 11))
    N = ns * int(rng.choice([8, 10, 12]))
    npx, wl, D = 12, float(rng.choice([500., 600.])), float(rng.uniform(4, 12))
    px = 0.5 * wl * 1e-9 / (D / ns) * 206265
    P = SimulParams(time_step=1e-3, pixel_pupil=N, pixel_pitch=D / N)
    src = Source(polar_coordinates=[0., 0.], magnitude=8, wavelengthInNm=wl)
    if zern:
        ifu = IFunc(type_str='zernike', npixels=N, nmodes=zern, obsratio=0.)
    else:
        y, x = (np.mgrid[:N, :N] - (N - 1) / 2) / (N / 2)
        modes = []
        for k in range(int(rng.integers(2, 6))):
            w = rng.uniform(0.8, 3, 4)
            f = np.sin(w[0] * x + w[1] * y + rng.uniform(0, 6)) + 0.5 * np.cos(w[2] * x - w[3] * y)
            f -= f.mean()
            modes.append((f / np.sqrt((f ** 2).mean())).ravel())
        ifu = IFunc(ifunc=np.array(modes), mask=np.ones((N, N)))
    dm = DM(simul_params=P, ifunc=ifu, height=0., sign=sign)

    def sensor(**kw):
        wfs = SH(wavelengthInNm=wl, subap_wanted_fov=npx * px, sensor_pxscale=px, subap_on_diameter=ns, subap_npx=npx, **kw)
        ef = ElectricField(N, N, D / N, S0=100.)
        ef.A[:] = np.asarray(ifu.mask_inf_func)
        ef.generation_time = 1
        wfs.inputs['in_ef'].set(ef)
        wfs.setup()
        wfs.check_ready(1)
        wfs.trigger()
        wfs.post_trigger()
        return wfs, ef
    wfs, ef = sensor()
    cal = ShSubapCalibrator(subap_on_diameter=ns, energy_th=0.5, output_tag='s', data_dir='s')
    cal.inputs['in_i'].set(wfs.outputs['out_i'])
    cal.setup()
    cal.check_ready(1)
    cal.trigger()
    sub = cal.subaps
    pix = Pixels(ns * npx, ns * npx)
    sc = ShSlopec(subapdata=sub)
    sc.inputs['in_pixels'].set(pix)
    sc.setup()
    return dict(P=P, src=src, ifu=ifu, dm=dm, wfs=wfs, sensor=sensor, sub=sub, pix=pix, sc=sc, ns=ns, N=N, npx=npx, wl=wl, D=D)


def _push_pull(S, wfs, ef, modes, amp=20.):
    import numpy as np
    from specula.base_value import BaseValue
    dm, pix, sc = S['dm'], S['pix'], S['sc']
    cmd = BaseValue(value=np.zeros(dm.nmodes))
    dm.inputs['in_command'].set(cmd)
    dm.setup()
    t, out = 10, []
    for mm in modes:
        s = []
        for sg in (1, -1):
            t += 10
            v = np.zeros(dm.nmodes)
            v[mm] = sg * amp
            cmd.value = v
            cmd.generation_time = t
            for o in (dm,):
                o.check_ready(t)
                o.trigger()
                o.post_trigger()
            ef.phaseInNm[:] = dm.outputs['out_layer'].phaseInNm
            ef.generation_time = t
            wfs.check_ready(t)
            wfs.trigger()
            wfs.post_trigger()
            pix.pixels = wfs.outputs['out_i'].i.copy()
            pix.generation_time = t
            sc.check_ready(t)
            sc.trigger()
            sc.post_trigger()
            s.append(np.array(sc.outputs['out_slopes'].slopes, dtype=float))
        out.append((s[0] - s[1]) / 2 / amp)
    return np.array(out).T


@CHECK.section('imgen', quick=12, thorough=240, timeout=900)
def imgen(c):
    """The generated interaction matrix is what the real mirror and sensor would measure under that mis-registration; the reconstructor inverts it."""
    import numpy as np
    from harness import sp
    from specula.base_value import BaseValue
    from specula.data_objects.ifunc import IFunc
    from specula.data_objects.intmat import Intmat
    from specula.processing_objects.im_sh_synim_generator import ImShSynimGenerator
    rng = c.rng
    S = _sh_system(rng)
    dm, sub, ns, npx = S['dm'], S['sub'], S['ns'], S['npx']
    nm = dm.nmodes
    steps = [(0., 0., 0., 0.)]
    for _ in range(2):
        v = np.zeros(4)
        q = int(rng.integers(0, 3))
        v[q] = float(rng.choice([-1, 1])) * (rng.uniform(0.02, 0.04) * S['N'] if q < 2 else rng.uniform(2, 5))
        steps.append(tuple(float(u) for u in v))
    mmse = bool(rng.random() < 0.4)
    rn = sp.pick(rng, [None, nm, max(1, nm - 1)])
    noise = float(10 ** rng.uniform(-6, -2))
    r0, L0 = float(rng.uniform(0.08, 0.3)), float(rng.uniform(15, 40))
    c.describe(ns=ns, N=S['N'], nmodes=nm, D=S['D'], wl=S['wl'], steps=[[round(u, 3) for u in s] for s in steps], mmse=mmse, rec_nmodes=rn, prec=c.precision, nsub=sub.n_subaps)
    g = ImShSynimGenerator(simul_params=S['P'], dm=dm, slopec=S['sc'], source=S['src'], wfs=S['wfs'], compute_rec=True, rec_nmodes=rn, mmse=mmse, r0=r0, L0=L0, noise_cov=noise if mmse else None)
    v = BaseValue(value=np.zeros(4))
    v.generation_time = 0
    connected = bool(rng.random() < 0.8)
    if connected:
        g.inputs['in_misreg_params'].set(v)
    g.setup()
    cy = (np.asarray(sub.idxs) // (ns * npx)).mean(1) // npx
    cx = (np.asarray(sub.idxs) % (ns * npx)).mean(1) // npx
    ok = (cx > 0) & (cx < ns - 1) & (cy > 0) & (cy < ns - 1)
    ok = np.r_[ok, ok]
    ims = []
    for t, st in enumerate(steps if connected else steps[:1]):
        v.value = np.array(st)
        v.generation_time = t
        g.check_ready(t)
        g.trigger()
        g.post_trigger()
        im = np.asarray(g.outputs['out_intmat'].intmat, dtype=float)
        c.eq(im.shape, (2 * sub.n_subaps, nm), 'imgen:shape', 'slopes x modes')
        c.eq((g.outputs['out_intmat'].generation_time, g.outputs['out_recmat'].generation_time), (t, t), 'imgen:time', 'both matrices stamped')
        rec = np.asarray(g.outputs['out_recmat'].recmat, dtype=float)
        nr = nm if rn is None else rn
        c.eq(rec.shape, (nr, 2 * sub.n_subaps), 'imgen:rec-shape', 'modes x slopes')
        if mmse:
            base = IFunc(ifunc=np.asarray(S['ifu'].influence_function), mask=np.asarray(S['ifu'].mask_inf_func))
            ref = Intmat(im).generate_rec_mmse(r0, L0, S['D'], base, noise, nmodes=nr)
            c.near(rec, ref.recmat, 'imgen:mmse', rtol=1e-5 if c.precision == 0 else 2e-2, scale=float(np.abs(ref.recmat).max()), msg='MMSE reconstructor of the published matrix')
        else:
            c.near(rec @ im[:, :nr], np.eye(nr), 'imgen:inverse', rtol=0, atol=1e-4 if c.precision == 0 else 2e-2, msg='reconstructor inverts the published matrix')
        w, e = S['sensor'](xShiftPhInPixel=st[0], yShiftPhInPixel=st[1], rotAnglePhInDeg=st[2])
        R = _push_pull(S, w, e, range(nm))
        err = np.linalg.norm((im - R)[ok]) / np.linalg.norm(R[ok])
        c.check(err < 0.06 + 0.025 * abs(st[2]), 'imgen:measured', f'relative distance {err:.3f} from the push-pull measurement with mis-registration {st}', ratio=float((im[ok] * R[ok]).sum() / (R[ok] ** 2).sum()))
        ims.append(im)
        c.saw('matrices compared with push-pull measurements', 1)
        # not triggered again while the parameters do not change
        if connected:
            c.check(not g.check_ready(t + 0.5), 'imgen:idle', 'not ready without new parameters')
            c.eq(g.outputs['out_intmat'].generation_time, t, 'imgen:idle', 'no new matrix without new parameters')
    for a in range(1, len(ims)):
        c.check(np.linalg.norm(ims[a] - ims[0]) > 1e-3 * np.linalg.norm(ims[0]), 'imgen:depends', 'mis-registration changes the matrix')


def _one_shot(S, cls, mode, freq, T, gain, ff, p0):
    return cls(simul_params=S['P'], dm=S['dm'], slopec=S['sc'], source=S['src'], wfs=S['wfs'], modes_index=[mode], carrier_frequencies=[freq], estimation_dt=T,
               max_iterations=1, integration_gain=gain, forgetting_factor=ff, initial_misreg=p0.tolist())


@CHECK.section('sprint_sh', quick=10, thorough=120, timeout=900)
def sprint_sh(c):
    """SPRINT finds the mis-registration that produced the modulated slopes, at the requested cadence, and publishes the matching matrix."""
    import numpy as np
    from harness import sp
    from specula.lib.synim_utils import compute_im_synim
    from specula.processing_objects.sprint_sh_synim import SprintShSynim
    from specula.processing_objects.im_sh_synim_generator import ImShSynimGenerator
    rng = c.rng
    S = _sh_system(rng, sign=int(rng.choice([-1, 1])), zern=36, coarsest=8)
    N = S['N']
    mode = int(sp.pick(rng, [12, 13, 16, 17, 18, 19, 23, 24]))           # well sampled by the lenslet array

    def draw():
        return np.array([rng.uniform(-1, 1) * 0.014 * N, rng.uniform(-1, 1) * 0.014 * N, rng.uniform(-1.2, 1.2), rng.uniform(-.012, .012)])
    true = [draw(), draw()]
    dt, per = 1e-3, int(rng.choice([5, 8, 10, 20]))
    T = per * int(rng.integers(2, 8)) * dt
    gain = float(rng.uniform(0.3, 0.6))
    og = float(rng.uniform(0.2, 5))
    ph = float(rng.choice([0, 0.3, 0.7]))             # the sign of a slope is lost at a quarter of a period
    zero = bool(rng.random() < 0.15)
    if zero:
        true = [np.array([0.02, -0.02, 0.02, 0.0005])] * 2    # not exactly zero: the model skips an interpolation there and differs by 5 %
    start_true = bool(rng.random() < 0.2)
    c.describe(N=N, ns=S['ns'], mode=mode, true=[t.round(4).tolist() for t in true], per=per, T=T, gain=gain, og=og, ph=ph, zero=zero, start_true=start_true, prec=c.precision)
    g = ImShSynimGenerator(simul_params=S['P'], dm=S['dm'], slopec=S['sc'], source=S['src'], wfs=S['wfs'], compute_rec=False)
    g.setup()
    ims = [np.asarray(g.generate_im(t))[:, mode] for t in true]
    e = SprintShSynim(simul_params=S['P'], dm=S['dm'], slopec=S['sc'], source=S['src'], wfs=S['wfs'], modes_index=[mode], carrier_frequencies=[1 / (per * dt)], estimation_dt=T,
                      max_iterations=40, convergence_threshold=1e-3, integration_gain=gain, initial_misreg=true[0].tolist() if start_true else None)
    sl = S['sc'].outputs['out_slopes']
    e.inputs['in_slopes'].set(sl)
    e.setup()
    n = int(round(T / dt))
    # one iteration: new = forgetting * old + gain * correction, whatever the correction is
    p0 = draw()
    ff, g2 = float(rng.uniform(0.2, 0.95)), float(rng.uniform(0.1, 1))
    one = []
    for gg, f in ((gain, 1.0), (gain, ff), (g2, 1.0)):
        q = _one_shot(S, SprintShSynim, mode, 1 / (per * dt), T, gg, f, p0)
        q.inputs['in_slopes'].set(sl)
        q.setup()
        for k in range(n + 1):
            sl.slopes[:] = ims[0] * og * np.cos(2 * np.pi * k / per + ph)
            sl.generation_time = q.seconds_to_t(k * dt)
            sp.step(q, q.seconds_to_t(k * dt))
        one.append(np.array(q.outputs['out_misreg_params'].value, dtype=float))
    sc = float(np.abs(one[0] - p0).max() + np.abs(p0).max())
    tol = 1e-9 if c.precision == 0 else 1e-4
    c.near(one[1], one[0] - (1 - ff) * p0, 'sprint:forgetting', rtol=tol, scale=sc, msg='one iteration with a forgetting factor')
    c.near((one[2] - p0) * gain, (one[0] - p0) * g2, 'sprint:gain', rtol=tol, scale=sc, msg='one iteration with another gain')
    out = e.outputs
    seen = []
    for k in range(2 * n + 2):
        seg = 0 if k <= n else 1
        sl.slopes[:] = ims[seg] * og * np.cos(2 * np.pi * k / per + ph)
        tt = e.seconds_to_t(k * dt)
        sl.generation_time = tt
        before = out['out_misreg_params'].generation_time
        e.check_ready(tt)
        e.trigger()
        e.post_trigger()
        if out['out_misreg_params'].generation_time != before:
            seen.append((k, np.array(out['out_misreg_params'].value, dtype=float), np.array(out['out_intmat'].intmat, dtype=float), float(out['out_convergence_error'].value[0])))
            c.eq([out[q].generation_time for q in ('out_misreg_params', 'out_intmat', 'out_convergence_error')], [tt] * 3, 'sprint:time', 'the three outputs are stamped together')
    c.eq([s[0] for s in seen], [n, 2 * n], 'sprint:cadence', f'estimates every {n} steps')
    # the search is iterative on a model with discontinuities at the pupil border: loose for each window, tight for the better of the two
    tight, loose = (np.array([0.004 * N, 0.004 * N, 0.25, 0.015]), np.array([0.008 * N, 0.008 * N, 0.6, 0.04]))
    c.check(any(np.all(np.abs(s[1] - w) < tight) for s, w in zip(seen, true)), 'sprint:params', f'estimated {[s[1].round(3).tolist() for s in seen]} for {[w.round(3).tolist() for w in true]}')
    for (k, got, im, err), want in zip(seen, true):
        c.check(bool(np.all(np.abs(got - want) < loose)), 'sprint:params', f'step {k}: estimated {got.round(3).tolist()} for {want.round(3).tolist()}')
        ref = compute_im_synim(misreg_params=got, pup_diam_m=S['D'], pup_mask=np.asarray(S['dm'].mask), ifunc_3d=np.asarray(S['ifu'].ifunc_2d_to_3d(normalize=True))[:, :, [mode]], dm_mask=np.asarray(S['dm'].mask),
                               source_polar_coords=S['src'].polar_coordinates, source_height=S['src'].height, wfs_nsubaps=S['ns'], wfs_fov_arcsec=S['wfs'].subap_wanted_fov, idx_valid_sa=e.idx_valid_sa)
        c.near(im, ref, 'sprint:intmat', rtol=1e-4, scale=float(np.abs(ref).max()), msg='published matrix is the one of the published parameters')
        c.check(np.isfinite(err) and 0 <= err < 0.3, 'sprint:error', f'convergence error {err}')
        if zero:
            c.check(float(np.abs(got[:2]).max()) < 0.003 * N, 'sprint:null', f'no mis-registration, estimated {got.tolist()}')
    c.saw('estimates', len(seen))


@CHECK.section('sprint_pyr', quick=6, thorough=90, precisions=(0,), timeout=900)
def sprint_pyr(c):
    """SPRINT with a pyramid finds the mis-registration built into a real pyramid."""
    import numpy as np
    from harness import sp
    from specula.base_value import BaseValue
    from specula.data_objects.electric_field import ElectricField
    from specula.data_objects.ifunc import IFunc
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.pupdata import PupData
    from specula.data_objects.pupilstop import Pupilstop
    from specula.data_objects.simul_params import SimulParams
    from specula.data_objects.source import Source
    from specula.processing_objects.dm import DM
    from specula.processing_objects.modulated_pyramid import ModulatedPyramid
    from specula.processing_objects.pyr_slopec import PyrSlopec
    from specula.processing_objects.sprint_pyr import SprintPyr
    rng = c.rng
    N, D, pd = 32, 8.0, 12
    dist = int(rng.choice([16, 17, 18, 20]))
    fs = dist + pd + 4
    fs += fs % 2
    mode = int(rng.choice([12, 13, 16, 17, 18, 19, 23, 24, 25, 26]))        # azimuthal order 3 or more: rotations are visible
    true = np.array([rng.uniform(-.8, .8), rng.uniform(-.8, .8), rng.uniform(-2.5, 2.5), rng.uniform(-.02, .02)])
    per, dt = int(rng.choice([4, 5, 8, 10])), 1e-3
    T = 40 * dt
    mod = float(rng.choice([1., 2.]))
    og = float(rng.uniform(0.3, 4))
    c.describe(dist=dist, fs=fs, mode=mode, true=true.round(4).tolist(), per=per, mod=mod, og=og)
    P = SimulParams(time_step=dt, pixel_pupil=N, pixel_pitch=D / N)
    src = Source(polar_coordinates=[0., 0.], magnitude=8, wavelengthInNm=750.)
    stop = Pupilstop(simul_params=P, mask_diam=1., obs_diam=float(rng.choice([0.0, 0.1])))
    ifu = IFunc(type_str='zernike', npixels=N, nmodes=30, obsratio=0.)
    dm = DM(simul_params=P, ifunc=ifu, height=0.)
    kw = dict(simul_params=P, wavelengthInNm=750., fov=1.5, pup_diam=pd, pup_dist=dist, output_resolution=fs, mod_amp=mod)
    wfs = ModulatedPyramid(xShiftPhInPixel=true[0], yShiftPhInPixel=true[1], rotAnglePhInDeg=true[2], magnification=1 + true[3], **kw)
    nom = ModulatedPyramid(**kw)
    ef = ElectricField(N, N, D / N, S0=1e6)
    ef.A = stop.A.copy()
    ef.generation_time = 1
    for w in (wfs, nom):
        w.inputs['in_ef'].set(ef)
        w.setup()
    c0, c1 = fs / 2 - dist / 2 - .5, fs / 2 + dist / 2 - .5
    cx, cy = np.array([c0, c1, c0, c1]), np.array([c0, c0, c1, c1])
    yy, xx = np.indices((fs, fs))
    base = np.stack(np.nonzero((xx - cx[0]) ** 2 + (yy - cy[0]) ** 2 <= (pd / 2) ** 2))
    ind = [(base[0] + int(cy[i] - cy[0])) * fs + base[1] + int(cx[i] - cx[0]) for i in range(4)]
    pdt = PupData(ind_pup=np.array(ind).T, radius=np.full(4, pd / 2), cx=cx, cy=cy, framesize=[fs, fs])
    pix = Pixels(fs, fs)
    sc = PyrSlopec(pupdata=pdt)
    sc.inputs['in_pixels'].set(pix)
    sc.setup()
    im = _push_pull(dict(dm=dm, pix=pix, sc=sc), wfs, ef, [mode], amp=10.)[:, 0]
    sl = sc.outputs['out_slopes']
    e = SprintPyr(simul_params=P, dm=dm, slopec=sc, source=src, wfs=nom, pupil_mask=stop, modes_index=[mode], carrier_frequencies=[1 / per / dt], estimation_dt=T, max_iterations=14, convergence_threshold=1e-3,
                  integration_gain=0.5)
    e.inputs['in_slopes'].set(sl)
    e.setup()
    for k in range(41):
        sl.slopes[:] = im * og * np.cos(2 * np.pi * k / per)
        tt = e.seconds_to_t(k * dt)
        sl.generation_time = tt
        e.check_ready(tt)
        e.trigger()
        e.post_trigger()
    got = np.asarray(e.outputs['out_misreg_params'].value, dtype=float)
    c.eq(e.outputs['out_misreg_params'].generation_time, e.seconds_to_t(T), 'pyr:time', 'one estimate at the end of the window')
    c.check(bool(np.all(np.abs(got - true) < [0.15, 0.15, 0.5, 0.01])), 'pyr:params', f'estimated {got.round(3).tolist()} for {true.round(3).tolist()}')
    fin = np.asarray(e.outputs['out_intmat'].intmat, dtype=float)[:, 0]
    cc = float(np.corrcoef(fin, im)[0, 1])
    c.check(cc > 0.97, 'pyr:intmat', f'correlation {cc:.4f} of the published matrix with the measured one')
    c.saw('pyramids aligned', 1)
