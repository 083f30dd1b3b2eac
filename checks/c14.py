"""C14: wavefront sensors conserve light and react to wavefronts as optics do."""
from harness.vf import CheckDef
CHECK = CheckDef('C14', rule=(
    'Each case builds a random wavefront sensor (Shack-Hartmann, modulated/linear/double-roof/extended-source pyramid, Zernike, curvature, '
    'polychromatic and distributed variants, ideal derivative), feeds random pupil fields through the public step protocol and judges the published '
    'images with closed-form optics: photon budget, linearity in flux, piston invariance, mirror/rotation symmetry, displacement for a known tilt, '
    'focal-plane position of known tilts and modulations, agreement between equivalent sensors. Non-trivial: an image with light was judged; '
    'distinct by sensor configuration and field.'),
    assumptions=['a Shack-Hartmann that resamples its input (oversampling) is mirror-symmetric only up to the sub-pixel offset of the resampling grid',
                 'the light outside a Shack-Hartmann or curvature sensor field is not removed (the sensors renormalise), as their code states',
                 'fields without any light are not judged'])


def mkef(N, pitch, A, ph, S0=1.0):
    from specula.data_objects.electric_field import ElectricField
    e = ElectricField(N, N, pitch, S0=S0, target_device_idx=-1)
    e.A[:] = A
    e.phaseInNm[:] = ph
    e.generation_time = 0
    return e


def run(o, e, t=0, setup=True):
    from harness import sp
    with sp.quiet():
        if setup:
            o.inputs['in_ef'].set(e)
            o.setup()
        e.generation_time = t
        sp.step(o, t)
    return out(o)


def out(o):
    from harness import sp
    return {k: sp.arr(v.i if hasattr(v, 'i') else v.value).astype(float) for k, v in o.outputs.items()}


def smooth(rng, N, rms):
    import numpy as np
    y, x = np.mgrid[:N, :N] / N
    p = np.zeros((N, N))
    for i in range(4):
        for j in range(4):
            p += rng.normal() * np.cos(np.pi * (i * x + j * y) + rng.uniform(0, 6))
    p -= p.mean()
    return p / p.std() * rms


def pupil(rng, N):
    import numpy as np
    from harness import sp
    y, x = np.mgrid[:N, :N] - (N - 1) / 2
    r = np.hypot(x, y)
    k = sp.pick(rng, ['circ', 'obs', 'full', 'spider'])
    A = np.ones((N, N)) if k == 'full' else (r < N / 2).astype(float)
    if k in ('obs', 'spider'):
        A[r < N / 2 * rng.uniform(0.15, 0.35)] = 0
    if k == 'spider':
        A[:, N // 3] = 0
    return A


KINDS = ['sh', 'sh1', 'pyr', 'pyr0', 'vert', 'horiz', 'alt', 'zernike', 'curv', 'poly_sh', 'poly_pyr', 'roof', 'dist_sh', 'pyr_defects', 'pyr_crop']


def geometry(rng, kind):
    from harness import sp
    g = dict(kind=kind, N=sp.pick(rng, [16, 24, 32]), D=sp.pick(rng, [1.6, 1.0, 3.2]), wl=sp.pick(rng, [550.0, 700.0, 1650.0]))
    g['pitch'] = g['D'] / g['N']
    ld = g['wl'] * 1e-9 / g['D'] * 206264.8
    if kind in ('sh', 'sh1', 'poly_sh', 'dist_sh'):
        g['nl'] = sp.pick(rng, [2, 4] if g['N'] != 24 else [2, 3, 4])
        g['npx'] = sp.pick(rng, [6, 8, 10])
        fov = ld * g['nl'] * rng.uniform(3.0, 0.8 * g['N'] / g['nl'])  # up to most of the alias-free field
        g['fov'] = float(fov)
        g['px'] = float(fov / g['npx'])
        g['ovs'] = 1.0 if kind == 'sh1' else sp.pick(rng, [1.0, 2.0])
        g['square'] = bool(rng.random() < 0.7)
        g['nslices'] = int(rng.integers(1, g['nl'] + 1))
        if kind in ('sh', 'sh1') and g['px'] > 1.02 * ld * g['nl'] and rng.random() < 0.4:
            g['kw'] = dict(set_fov_res_to_turbpxsc=True)
    elif kind == 'curv':
        g['px'] = float(ld * rng.uniform(0.3, 1.2))
        g['npx'] = sp.pick(rng, [16, 20, 32])
        g['fov'] = float(min(g['px'] * g['npx'], 0.9 * ld * g['N']))
        g['defocus'] = float(rng.uniform(0, 150) * g['wl'] / 550)
    else:
        g['pup'] = sp.pick(rng, [8, 10, 12])
        g['fov'] = float(ld * g['N'] * rng.uniform(0.5, 0.95))
        g['ccd'] = g['pup'] * 2 + 4 + sp.pick(rng, [4, 8, 12])
        g['amp'] = {'pyr0': 0.0}.get(kind, float(rng.integers(2, 5)))
        if kind in ('vert', 'horiz', 'alt') and rng.random() < 0.2:
            g['amp'] = 0.0
        g['fftres'] = float(sp.pick(rng, [3.0, 4.0]))
    return g


def build(g):
    from harness import sp
    k = g['kind']
    P = sp.simul_params(pixel_pupil=g['N'], pixel_pitch=g['pitch'])
    T = dict(target_device_idx=-1)
    with sp.quiet():
        if k in ('sh', 'sh1'):
            from specula.processing_objects.sh import SH
            return SH(g['wl'], g['fov'], g['px'], g['nl'], g['npx'], squaremask=g['square'], fov_ovs_coeff=g['ovs'], **g.get('kw', {}), **T)
        if k == 'dist_sh':
            from specula.processing_objects.distributed_sh import DistributedSH
            return DistributedSH(g['wl'], g['fov'], g['px'], g['nl'], g['npx'], g['nslices'], squaremask=g['square'], fov_ovs_coeff=g['ovs'], **T)
        if k == 'poly_sh':
            from specula.processing_objects.poly_chrom_sh import PolyChromSH
            return PolyChromSH([g['wl'], g['wl'] * 1.2], [0.7, 0.3], g['fov'], g['px'], g['nl'], g['npx'], squaremask=g['square'],
                               fov_ovs_coeff=g['ovs'], **T)
        if k == 'curv':
            from specula.processing_objects.curvature_sensor import CurvatureSensor
            return CurvatureSensor(g['wl'], g['fov'], g['px'], g['npx'], g['defocus'], **T)
        if k == 'zernike':
            from specula.processing_objects.zernike_sensor import ZernikeSensor
            return ZernikeSensor(P, g['wl'], g['fov'], g['pup'], g['ccd'], fft_res=g['fftres'], **T)
        if k == 'roof':
            from specula.processing_objects.modulated_double_roof import ModulatedDoubleRoof
            return ModulatedDoubleRoof(P, g['wl'], g['fov'], g['pup'], g['ccd'], mod_amp=g['amp'], fft_res=g['fftres'], **T)
        if k == 'poly_pyr':
            from specula.processing_objects.poly_crom_pyramid import PolyCromPyramid
            return PolyCromPyramid(simul_params=P, wavelengthInNm=[g['wl'], g['wl'] * 1.1], flux_factor=[0.6, 0.4], fov=g['fov'], pup_diam=g['pup'],
                                    output_resolution=g['ccd'], mod_amp=g['amp'], fft_res=g['fftres'], **T)
        from specula.processing_objects.modulated_pyramid import ModulatedPyramid
        kw = dict(g.get('kw', {}))
        if k in ('vert', 'horiz', 'alt'):
            kw['mod_type'] = {'vert': 'vertical', 'horiz': 'horizontal', 'alt': 'alternating'}[k]
        if k == 'pyr_defects':
            kw.update(pyr_edge_def_ld=0.4, pyr_tip_def_ld=0.8)
        if k == 'pyr_crop':
            # a detector smaller than the internal image
            kw.update(fft_res=5.0)
            return ModulatedPyramid(P, g['wl'], g['fov'], g['pup'], g['pup'] * 2 + 8, mod_amp=g['amp'], **kw, **T)
        return ModulatedPyramid(P, g['wl'], g['fov'], g['pup'], g['ccd'], mod_amp=g['amp'], fft_res=g['fftres'], **kw, **T)


def images(r):
    return {k: v for k, v in r.items() if k in ('out_i', 'out_i1', 'out_i2')}


def pixscale(o, g):
    """actual arcsec per output pixel of a Shack-Hartmann"""
    return float(o._sensor_pxscale) * 206264.80624709636


def resampled(o, g):
    ip = getattr(o, 'ef_interpolator', None)
    return g.get('ovs', 1.0) != 1.0 or (ip is not None and ip.do_interpolation)


@CHECK.section('corner', quick=2, thorough=2, precisions=(0,))
def corner(c):
    """piston invariance of a resampled field with opaque pixels (fixed case of a known finding)"""
    import numpy as np
    N = 16
    y, x = np.mgrid[:N, :N] - (N - 1) / 2
    A = (np.hypot(x, y) < N / 2).astype(float)
    g = dict(kind='sh', N=N, D=1.0, pitch=1.0 / N, wl=550.0, nl=2, npx=10, fov=1.2560548347883003, px=0.12560548347883002, ovs=2.0, square=False, nslices=2)
    ph = 60 * np.cos(x / 3 + y / 5 + c.i)
    c.describe(shape=c.i, **g)
    o = build(g)
    e = mkef(N, g['pitch'], A, ph, 1000.)
    a = images(run(o, e))
    e.phaseInNm[:] += 137.
    b = images(run(o, e, 1, setup=False))
    for k in a:
        c.near(b[k], a[k], 'corner-pixels-not-extrapolated', rtol=2e-6, scale=a[k].max(), out=k)
    c.saw('fixed_cases')


@CHECK.section('photometry', quick=45, thorough=1600, precisions=(0, 1), timeout=600)
def photometry(c):
    import numpy as np
    from harness import sp
    rng = c.rng
    kind = KINDS[c.i % len(KINDS)]
    g = geometry(rng, kind)
    N = g['N']
    A = pupil(rng, N)
    if rng.random() < 0.4:
        A = A * (0.4 + 0.6 * np.abs(smooth(rng, N, 0.5)).clip(0, 1))
    ph = smooth(rng, N, float(rng.uniform(0, 0.12)) * g['wl'])
    S0 = float(10 ** rng.uniform(-1, 4))
    c.describe(**g, S0=S0)
    tol = 1e-9 if c.precision == 0 else 2e-4
    e = mkef(N, g['pitch'], A, ph, S0)
    o = build(g)
    r = run(o, e)
    ims = images(r)
    # collected light: flux density times illuminated area
    want = S0 * g['pitch'] ** 2 * np.sum(A.astype(np.float32 if c.precision else float))
    if 'out_transmission' in r:
        tr = float(np.ravel(r['out_transmission'])[0])
        c.check(0 < tr <= 1 + 1e-6, 'transmission-range', f'transmission {tr}')
        fr = float(np.ravel(r['out_flux_frac_inside_detector'])[0])
        c.check(0 < fr <= 1 + 1e-6, 'fraction-range', f'fraction inside detector {fr}')
        want_i = want * tr * fr
        if kind not in ('roof',):
            psf, bfm = r['out_psf_tot'], r['out_psf_bfm']
            c.near(np.sum(psf) / np.sum(bfm), tr, 'transmission-vs-psf', rtol=tol)
            c.check(np.all((psf == 0) | np.isclose(psf, bfm, rtol=1e-5)), 'psf-mask', 'PSF after the field stop is not the masked PSF')
    else:
        want_i = want
    for k, im in ims.items():
        c.check(np.all(np.isfinite(im)) and im.min() >= 0, f'negative-intensity:{kind}', f'{k} min {im.min()}')
        c.near(im.sum(), want_i, f'light-budget:{kind}', rtol=max(tol, 1e-7 if c.precision == 0 else 1e-3), out=k)
    c.saw('images_judged', len(ims))

    # same object, next steps: brighter source, piston, the same field again
    t = 1
    fac = float(rng.uniform(2, 50))
    e.S0 = S0 * fac
    if kind == 'alt':
        run(o, e, t, setup=False)      # other orientation: skip to compare like with like
        t += 1
    r2 = run(o, e, t, setup=False)
    for k, im in images(r2).items():
        c.near(im, ims[k] * fac, f'flux-linearity:{kind}', rtol=max(tol, 1e-4 if c.precision else 0), scale=ims[k].max() * fac, out=k)
    e.S0 = S0
    e.phaseInNm[:] += float(rng.uniform(-3, 3)) * g['wl'] * (0.2 if c.precision else 1)
    t += 1
    if kind == 'alt':
        run(o, e, t, setup=False)
        t += 1
    r3 = run(o, e, t, setup=False)
    for k, im in images(r3).items():
        # (the known corner defect of the phase extrapolation shows only when a field with opaque pixels is resampled: see 'corner')
        if not (np.any(A == 0) and resampled(o, g)):
            c.near(im, ims[k], f'piston:{kind}', rtol=2e-6 if c.precision == 0 else 3e-3, scale=ims[k].max(), out=k)
    # the amplitude changes while it runs (scintillation, a moving vignetting): the light follows it
    A2 = A * rng.uniform(0.2, 1.0, A.shape) if rng.random() < 0.5 else A * float(rng.uniform(0.2, 0.9))
    e.A[:] = A2
    e.phaseInNm[:] = ph
    t += 1
    rv = run(o, e, t, setup=False)
    frac = 1.0
    if 'out_transmission' in rv:
        frac = float(np.ravel(rv['out_transmission'])[0]) * float(np.ravel(rv['out_flux_frac_inside_detector'])[0])
    for k, im in images(rv).items():
        c.near(im.sum(), S0 * g['pitch'] ** 2 * np.sum(A2) * frac, f'light-budget-later:{kind}', rtol=max(tol, 1e-7 if c.precision == 0 else 1e-3), out=k)
    if kind == 'alt':
        t += 1
        run(o, e, t, setup=False)
    if kind not in ('poly_sh', 'poly_pyr'):
        # amplitude scale: with a renormalised sensor, light is area times amplitude as collected; shape does not change
        e.A[:] = A * 0.5
        e.phaseInNm[:] = ph
        t += 1
        if kind == 'alt':
            run(o, e, t, setup=False)
            t += 1
        r4 = run(o, e, t, setup=False)
        for k, im in images(r4).items():
            # (resampling a binary amplitude re-thresholds it: only non-resampled fields are judged)
            ip = getattr(o, 'ef_interpolator', None)
            if ip is not None and not ip.do_interpolation:
                c.near(im / im.sum(), ims[k] / ims[k].sum(), f'amplitude-scale:{kind}', rtol=1e-9 if c.precision == 0 else 3e-3,
                       scale=(ims[k] / ims[k].sum()).max(), out=k)
    c.saw('steps_judged', 3)


@CHECK.section('subaps', quick=20, thorough=800, precisions=(0, 1), timeout=600)
def subaps(c):
    """Light is shared among sub-apertures as the square of their amplitudes."""
    import numpy as np
    rng = c.rng
    g = geometry(rng, 'sh')
    g['square'] = True
    nl, N = g['nl'], g['N']
    a = rng.uniform(0.2, 1, (nl, nl))
    a[int(rng.integers(nl)), int(rng.integers(nl))] = 0.0
    if a.sum() == 0 or N % nl:
        return c.skip()
    A = np.kron(a, np.ones((N // nl, N // nl)))
    c.describe(**g, a=a.tolist())
    o = build(g)
    im = run(o, mkef(N, g['pitch'], A, np.zeros((N, N))))['out_i']
    q = g['npx']
    f = np.array([[im[i * q:(i + 1) * q, j * q:(j + 1) * q].sum() for j in range(nl)] for i in range(nl)])
    w = a ** 2
    exact = not o.ef_interpolator.do_interpolation
    tol = 1e-6 if exact and c.precision == 0 else (1e-3 if exact else 0.25)
    c.near(f / f.sum(), w / w.sum(), 'subaperture-flux' + ('' if exact else ':resampled'), rtol=tol, scale=(w / w.sum()).max(), sub_a=a.tolist(), f=f.tolist())
    c.saw('subapertures', nl * nl)


@CHECK.section('symmetry', quick=40, thorough=1280, precisions=(0, 1), timeout=600)
def symmetry(c):
    import numpy as np
    from harness import sp
    rng = c.rng
    kind = ['sh', 'sh1', 'pyr', 'pyr0', 'zernike', 'curv', 'dist_sh', 'poly_pyr', 'vert', 'poly_sh'][c.i % 10]
    g = geometry(rng, kind)
    N = g['N']
    A, ph = pupil(rng, N), smooth(rng, N, float(rng.uniform(0.03, 0.12)) * g['wl'])
    name, f = sp.pick(rng, [('lr', np.fliplr), ('ud', np.flipud), ('rot90', np.rot90), ('transpose', np.transpose), ('rot180', lambda a: np.rot90(a, 2))])
    if kind == 'vert' and name in ('rot90', 'transpose'):
        g2 = dict(g, kind='horiz')
    else:
        g2 = g
    c.describe(**g, f=name)
    o = build(g)
    r1 = images(run(o, mkef(N, g['pitch'], A, ph)))
    r2 = images(run(build(g2), mkef(N, g['pitch'], f(A), f(ph))))
    inner = [o] if not hasattr(o, '_wfs_instances') else o._wfs_instances
    if kind == 'dist_sh':
        inner = o.sub_sh
    exact = all(not x.ef_interpolator.do_interpolation for x in inner)
    for k in r1:
        a, b = f(r1[k]), r2[k]
        if exact:
            c.near(b, a, f'{name}:{kind}', rtol=1e-9 if c.precision == 0 else 5e-3, scale=a.max(), out=k)
        elif name == 'transpose':      # (edge extrapolation is not exactly symmetric)
            c.near(b, a, f'{name}:{kind}:resampled', rtol=1e-2, scale=a.max(), out=k)
        else:
            d = np.abs(a - b).sum() / a.sum()
            c.check(d < 0.35, f'{name}:{kind}:resampled', f'relative difference {d:.3f} after {name} of the field')
    c.saw('mirrored_images', len(r1))


def centroid(im):
    import numpy as np
    y, x = np.indices(im.shape)
    s = im.sum()
    return (im * y).sum() / s - (im.shape[0] - 1) / 2, (im * x).sum() / s - (im.shape[1] - 1) / 2


@CHECK.section('tilt', quick=30, thorough=1000, precisions=(0, 1), timeout=600)
def tilt(c):
    """A wavefront tilt displaces the spots by the same angle along the same axis."""
    import numpy as np
    from harness import sp
    rng = c.rng
    kind = ['sh', 'curv', 'poly_sh', 'sh1', 'dist_sh'][c.i % 5]
    g = geometry(rng, kind)
    N = g['N']
    g['square'] = True
    y, x = np.mgrid[:N, :N] - (N - 1) / 2
    A = np.ones((N, N)) if rng.random() < 0.5 else pupil(rng, N)
    ld = g['wl'] * 1e-9 / g['D'] * 206264.8
    if kind == 'curv':
        g['defocus'] = 10.0
        g['fov'] = min(g['px'] * g['npx'], 0.9 * ld * N)
        lim = g['fov'] / 2 - 3 * ld
    else:
        lim = g['fov'] / 2 - 1.6 * ld * g['nl']
    lim = max(lim, 0.3 * ld)
    th = rng.uniform(-1, 1, 2) * lim * 0.7
    if rng.random() < 0.3:
        th[int(rng.integers(2))] = 0
    slope = 1e9 * g['pitch'] / 206264.80624709636      # nm per pixel per arcsec
    poly = None
    c.describe(**g, th=th.tolist())
    o = build(g)
    ref = build(g)
    if kind == 'poly_sh':
        # tilt requested through the sensor's own parameter
        from specula.processing_objects.poly_chrom_sh import PolyChromSH
        kw = dict(subap_wanted_fov=g['fov'], sensor_pxscale=g['px'], subap_on_diameter=g['nl'], subap_npx=g['npx'], fov_ovs_coeff=g['ovs'], target_device_idx=-1)
        with sp.quiet():
            o = PolyChromSH([g['wl']], [1.0], xy_tilts_in_arcsec=[[float(th[1]), float(th[0])]], **kw)
            ref = PolyChromSH([g['wl']], [1.0], **kw)
        ra = run(ref, mkef(N, g['pitch'], A, slope * (th[0] * y + th[1] * x)))['out_i']
        rb = run(o, mkef(N, g['pitch'], A, 0 * y))['out_i']
        c.near(rb, ra, 'polychromatic-tilt', rtol=1e-6 if c.precision == 0 else 1e-2, scale=ra.max())
        c.saw('tilts', 1)
        return
    r0 = images(run(ref, mkef(N, g['pitch'], A, 0 * y)))
    r1 = images(run(o, mkef(N, g['pitch'], A, slope * (th[0] * y + th[1] * x))))
    for k in r0:
        if kind == 'curv':
            px = g['fov'] / g['npx']
            a, b = [np.array(centroid(q[k])) * px for q in (r0, r1)]
            c.near(b - a, th, 'tilt-displacement:curv', rtol=0.1, atol=0.35 * ld, scale=np.max(np.abs(th)))
            continue
        s0 = o.sub_sh[0] if kind == 'dist_sh' else o
        px = pixscale(s0, g)
        c.check(abs(px / g['px'] - 1) < 0.35, 'pixel-scale', f'sensor pixel scale {px} for a requested {g["px"]}')
        q, nl = g['npx'], g['nl']
        for i in range(nl):
            for j in range(nl):
                sub0, sub1 = [z[k][i * q:(i + 1) * q, j * q:(j + 1) * q] for z in (r0, r1)]
                Asub = A[i * N // nl:(i + 1) * N // nl, j * N // nl:(j + 1) * N // nl]
                if Asub.mean() < 0.99:
                    continue
                d = (np.array(centroid(sub1)) - np.array(centroid(sub0))) * px
                c.near(d, th, f'tilt-displacement:{kind}', rtol=0.15, atol=0.45 * ld * nl, scale=np.max(np.abs(th)), px=px, d=d.tolist())
                # the sign and the axis are unambiguous
                big = int(np.argmax(np.abs(th)))
                if abs(th[big]) > 0.6 * ld * nl:
                    c.check(d[big] * th[big] > 0, f'tilt-sign:{kind}', f'tilt {th} moved the spot by {d}')
                    c.saw('signed_tilts')
    c.saw('tilts', 1)


@CHECK.section('focal_plane', quick=24, thorough=800, precisions=(0, 1), timeout=600)
def focal_plane(c):
    """Position of a tilted source and of the modulation path on the pyramid tip plane."""
    import numpy as np
    rng = c.rng
    g = geometry(rng, ['pyr0', 'pyr', 'vert', 'horiz'][c.i % 4])
    N = g['N']
    A = np.ones((N, N)) if g['kind'] == 'pyr0' else pupil(rng, N)
    y, x = np.mgrid[:N, :N] - (N - 1) / 2
    o = build(g)
    p = o.fft_sampling
    ppl = o.fft_totsize / o.fft_sampling      # focal-plane pixels per lambda/D
    k = np.round(rng.uniform(-3, 3, 2), 2) if g['kind'] == 'pyr0' else np.zeros(2)
    ph = g['wl'] / N * (k[0] * y + k[1] * x)
    c.describe(**g, k=k.tolist())
    psf = run(o, mkef(N, g['pitch'], A, ph))['out_psf_bfm']
    M = len(psf)
    yy, xx = np.indices(psf.shape) - (M - 1) / 2
    tol = 0.75 / ppl + 3.5 / p
    if g['kind'] == 'pyr0':
        i = np.unravel_index(np.argmax(psf), psf.shape)
        got = np.array([yy[i], xx[i]]) / ppl
        # the interpolation inside the sensor scales a tilt by up to (N-1)/N
        c.near(got, k, 'psf-position', rtol=0, atol=tol + 0.06 * np.max(np.abs(k)), got=got.tolist(), k=k.tolist(), ppl=ppl)
        c.saw('psf_positions')
        return
    amp = g['amp']
    if amp == 0:
        return c.skip()
    P = psf / psf.sum()
    r = np.hypot(yy, xx) / ppl
    if g['kind'] == 'pyr':
        # the light is on a ring with the radius of the modulation
        rad = np.arange(0, r.max(), 0.25)
        prof = np.array([psf[(r >= a - 0.4) & (r < a + 0.4)].mean() if np.any((r >= a - 0.4) & (r < a + 0.4)) else 0 for a in rad])
        got = rad[np.argmax(prof)]
        c.near(got, amp, 'modulation-radius', rtol=0, atol=0.55 + 4 * amp / p, amp=amp)
        # and covers it uniformly
        th = np.arctan2(yy, xx)
        quad = [P[(th >= a) & (th < a + np.pi / 2)].sum() for a in (-np.pi, -np.pi / 2, 0, np.pi / 2)]
        c.check(np.ptp(quad) < 0.06, 'modulation-uniform', f'light by quadrant {np.round(quad, 3)}')
    else:
        along, across = (np.abs(yy), np.abs(xx)) if g['kind'] == 'vert' else (np.abs(xx), np.abs(yy))
        core = P[(along / ppl < amp + 1.5) & (across / ppl < 1.5)].sum()
        c.check(core > 0.6, 'modulation-axis', f'{g["kind"]} modulation: only {core:.2f} of the light along its axis')
        edge = P[(along / ppl > amp - 1.0) & (along / ppl < amp + 1.0) & (across / ppl < 1.5)].sum()
        far = P[(along / ppl > amp + 2.0) & (across / ppl < 1.5)].sum()
        c.check(edge > far * 2, 'modulation-extent', f'light at the requested extent {edge:.3f}, beyond it {far:.3f}')
    c.saw('modulations')


@CHECK.section('shared', quick=16, thorough=480, precisions=(0, 1), timeout=600)
def shared(c):
    """Sensors living in the same process (sharing work areas) behave as if alone; distributed equals whole."""
    import numpy as np
    from harness import sp
    rng = c.rng
    n = int(rng.integers(2, 4))
    base = sp.pick(rng, ['sh', 'pyr', 'mix', 'poly'])
    pool = {'sh': ['sh', 'sh1', 'dist_sh'], 'pyr': ['pyr', 'pyr0', 'vert', 'zernike'], 'mix': ['sh', 'pyr', 'curv'], 'poly': ['poly_sh', 'poly_pyr']}[base]
    g0 = geometry(rng, pool[0])
    gs, efs = [], []
    for i in range(n):
        g = geometry(rng, sp.pick(rng, pool))
        if rng.random() < 0.6 and g['kind'] == g0['kind']:
            g = dict(g0)      # identical geometry: the strongest sharing
        fam = lambda q: 'pyr' if 'pup' in q else ('curv' if q['kind'] == 'curv' else 'sh')
        if i and fam(g) == fam(gs[0]) and rng.random() < 0.8:
            g.update({q: v for q, v in gs[0].items() if q in ('N', 'D', 'pitch', 'wl', 'nl', 'npx', 'fov', 'px') and q in g})
            g.pop('kw', None)
            if 'nl' in gs[0] and 'nslices' in g:
                g['nslices'] = min(g['nslices'], g['nl'])
        if 'nl' in g and g['N'] % g['nl']:
            g['nl'] = 2
            g['nslices'] = 1
        gs.append(g)
    T = 3
    fields = [[(pupil(rng, g['N']), smooth(rng, g['N'], 0.1 * g['wl'])) for _ in range(T)] for g in gs]
    for f in fields:      # a pupil does not change during a run
        for t in range(T):
            f[t] = (f[0][0], f[t][1])
    c.describe(kinds=[g['kind'] for g in gs], n=n, gs=str(gs)[:300])
    alone = []
    for g, f in zip(gs, fields):
        o = build(g)
        e = mkef(g['N'], g['pitch'], *f[0])
        res = []
        for t in range(T):
            e.phaseInNm[:] = f[t][1]
            res.append(run(o, e, t, setup=t == 0))
        alone.append(res)
    objs = [build(g) for g in gs]
    es = [mkef(g['N'], g['pitch'], *f[0]) for g, f in zip(gs, fields)]
    with sp.quiet():
        for o, e in zip(objs, es):
            o.inputs['in_ef'].set(e)
            o.setup()
        for t in range(T):
            for e, f in zip(es, fields):
                e.phaseInNm[:] = f[t][1]
                e.generation_time = t
            # sensors of the same rank of the loop run phase by phase
            for o in objs:
                o.check_ready(t)
            for o in objs:
                o.trigger()
            for o in objs:
                o.post_trigger()
            for i, o in enumerate(objs):
                for k, v in images(out(o)).items():
                    c.near(v, alone[i][t][k], f'shared-workspace:{gs[i]["kind"]}', rtol=1e-12 if c.precision == 0 else 1e-6, scale=v.max(), t=t, kinds=[q['kind'] for q in gs])
                    c.saw('shared_frames')


@CHECK.section('distributed', quick=12, thorough=400, precisions=(0, 1), timeout=600)
def distributed(c):
    import numpy as np
    rng = c.rng
    g = geometry(rng, 'dist_sh')
    N = g['N']
    A = pupil(rng, N)
    c.describe(**g)
    a, b = build(g), build(dict(g, kind='sh'))
    ea = mkef(N, g['pitch'], A, 0)
    eb = mkef(N, g['pitch'], A, 0)
    for t in range(3):
        ph = smooth(rng, N, 0.1 * g['wl'])
        ea.phaseInNm[:], eb.phaseInNm[:] = ph, ph
        ia, ib = run(a, ea, t, setup=t == 0)['out_i'], run(b, eb, t, setup=t == 0)['out_i']
        c.near(ia, ib, 'distributed-sh', rtol=1e-9 if c.precision == 0 else 1e-4, scale=ib.max(), nslices=g['nslices'])
        c.saw('distributed_frames')


@CHECK.section('misregistration', quick=24, thorough=800, precisions=(0, 1), timeout=600)
def misreg(c):
    """Rotation and shift parameters of a sensor equal a really rotated/shifted pupil field."""
    import numpy as np
    from specula.lib.extrapolation_2d import EFInterpolator
    from harness import sp
    rng = c.rng
    N = int(sp.pick(rng, [24, 32, 40]))
    y, x = np.mgrid[:N, :N] - (N - 1) / 2
    r = np.hypot(x, y) / (N / 2)
    # smooth amplitude and phase, so that resampling errors are small
    A0 = lambda yy, xx: np.exp(-((xx / N * 3.2) ** 2 + (yy / N * 3.2) ** 2) * 2)
    k = rng.uniform(0.5, 1.5, (2, 2))
    q = rng.uniform(0, 6, 2)
    P0 = lambda yy, xx: 100 * (np.cos(2 * np.pi * k[0, 0] * xx / N + k[0, 1] * yy / N * 3 + q[0]) + np.sin(2 * np.pi * k[1, 0] * yy / N + q[1]))
    mode = sp.pick(rng, ['shift', 'rot', 'mag', 'update', 'partial_update'])
    e = mkef(N, 0.1, A0(y, x), P0(y, x))
    sx, sy = [float(v) for v in rng.uniform(-3, 3, 2)]
    rot = float(rng.uniform(-180, 180))
    mag = float(rng.uniform(0.8, 1.25))
    c.describe(N=N, mode=mode, sx=sx, sy=sy, rot=rot, mag=mag)
    kw = {}
    if mode == 'shift':
        kw = dict(xShiftPhInPixel=sx, yShiftPhInPixel=sy)
    elif mode == 'rot':
        kw = dict(rotAnglePhInDeg=rot)
    elif mode == 'mag':
        kw = dict(magnification=mag)
    else:
        kw = dict(xShiftPhInPixel=sx, yShiftPhInPixel=sy, rotAnglePhInDeg=rot, magnification=mag)
    if mode in ('update', 'partial_update'):
        start = dict(xShiftPhInPixel=float(rng.uniform(-2, 2)), yShiftPhInPixel=float(rng.uniform(-2, 2)), rotAnglePhInDeg=float(rng.uniform(-90, 90)), magnification=1.1)
        it = EFInterpolator(e, (N, N), target_device_idx=-1, **start)
        it.interpolate()
        upd = dict(kw)
        if mode == 'partial_update':
            for name in list(upd):
                if rng.random() < 0.5:
                    del upd[name]
            kw = {**start, **upd}
        it.update_parameters(**upd)
        it.interpolate()
        it2 = EFInterpolator(e, (N, N), target_device_idx=-1, **kw)
        it2.interpolate()
        a, b = it.interpolated_ef(), it2.interpolated_ef()
        c.near(sp.arr(a.A), sp.arr(b.A), 'updated-parameters', rtol=1e-4, scale=1, upd=list(upd))
        c.near(sp.arr(a.phaseInNm), sp.arr(b.phaseInNm), 'updated-parameters', rtol=1e-4, scale=200, upd=list(upd))
        c.saw('updates')
        return
    it = EFInterpolator(e, (N, N), target_device_idx=-1, **kw)
    it.interpolate()
    o = it.interpolated_ef()
    A, ph = sp.arr(o.A).astype(float), sp.arr(o.phaseInNm).astype(float)
    w = A0(y, x) > 0.15
    # where the sampling point falls: x is the shift along the first axis (pinned by the test suite)
    if mode == 'shift':
        Y, X = y + sx, x + sy
    elif mode == 'rot':
        a = -np.deg2rad(rot)
        X, Y = x * np.cos(a) - y * np.sin(a), x * np.sin(a) + y * np.cos(a)
    else:
        X, Y = x / mag, y / mag
    ok = w & (np.abs(X) < N / 2 - 3) & (np.abs(Y) < N / 2 - 3)
    # the sensor's resampling grid is offset by up to about half a pixel per axis at the border
    for name, got, F0 in (('amplitude', A, A0), ('phase', ph, P0)):
        want = F0(Y, X)
        gr = np.hypot(*np.gradient(want))
        c.near(got[ok], want[ok], f'resampled-{name}:{mode}', rtol=0, atol=1.1 * gr[ok].max(), **kw)
        c.near(np.mean(np.abs(got - want)[ok]), 0, f'resampled-{name}-mean:{mode}', rtol=0, atol=0.75 * gr[ok].mean(), **kw)
    c.saw('misregistrations')


@CHECK.section('extended', quick=10, thorough=320, precisions=(0, 1), timeout=600)
def extended(c):
    """A pyramid looking at an extended source sees the sum of its points, each weighted by its flux."""
    import numpy as np
    from harness import sp
    from specula.processing_objects.ext_source_pyramid import ExtSourcePyramid
    rng = c.rng
    g = geometry(rng, 'pyr')
    N = g['N']
    A = pupil(rng, N)
    n = int(rng.integers(2, 6))
    co = np.zeros((n, 4))
    co[:, :2] = rng.uniform(-3, 3, (n, 2))
    co[:, 2] = rng.uniform(-1, 1, n) * (rng.random() < 0.5)
    co[:, 3] = rng.uniform(0.1, 1, n)
    bs = int(sp.pick(rng, [1, 2, 3, 128]))
    c.describe(**g, n=n, bs=bs)
    ph = smooth(rng, N, 0.1 * g['wl'])
    P = sp.simul_params(pixel_pupil=N, pixel_pitch=g['pitch'])

    def ext(coeff, batch, stream=True):
        with sp.quiet():
            o = ExtSourcePyramid(P, g['wl'], g['fov'], g['pup'], g['ccd'], fov_errinf=0.1, fft_res=g['fftres'], max_batch_size=batch, cuda_stream_enable=stream, target_device_idx=-1)
        v = sp.val(np.array(coeff, dtype=o.dtype), t=0)
        o.inputs['ext_source_coeff'].set(v)
        return run(o, mkef(N, g['pitch'], A, ph))
    tol = 1e-8 if c.precision == 0 else 3e-3
    whole = ext(co, bs)
    parts = [ext(co[i:i + 1], 4) for i in range(n)]
    w = co[:, 3] / co[:, 3].sum()
    psf = sum(wi * p['out_psf_bfm'] for wi, p in zip(w, parts))
    c.near(whole['out_psf_bfm'], psf, 'extended-psf-sum', rtol=tol, scale=psf.max(), batch=bs)
    # image sums with the transmissions of the points
    im = sum(wi * p['out_i'] for wi, p in zip(w, parts))
    c.near(whole['out_i'], im, 'extended-image-sum', rtol=max(tol, 3e-2 if c.precision == 0 else 3e-2), scale=im.max(), batch=bs)
    perm = rng.permutation(n)
    c.near(ext(co[perm], 128)['out_i'], whole['out_i'], 'extended-order', rtol=tol, scale=im.max())
    c.near(ext(co * np.array([1, 1, 1, 7.0]), 128)['out_i'], whole['out_i'], 'extended-flux-scale', rtol=tol, scale=im.max())
    c.saw('extended_sources')


@CHECK.section('derivative', quick=20, thorough=640, precisions=(0, 1), timeout=600)
def derivative(c):
    """Ideal derivative sensor: linear, and equal to the mean gradient of each sub-aperture."""
    import numpy as np
    from harness import sp
    from specula.processing_objects.ideal_derivative_sensor import IdealDerivativeSensor
    from specula.data_objects.subap_data import SubapData
    rng = c.rng
    nl = int(sp.pick(rng, [2, 4, 5]))
    q = int(sp.pick(rng, [4, 6, 8]))
    N = nl * q
    pitch = 0.1
    fov = float(rng.uniform(1, 5))
    disp = np.sort(rng.permutation(nl * nl)[:int(rng.integers(1, nl * nl + 1))])
    np_sub = int(sp.pick(rng, [6, 8]))
    idxs = np.zeros((len(disp), np_sub * np_sub), dtype=int)
    frame = np.arange((nl * np_sub) ** 2).reshape(nl * np_sub, -1)
    for n, d in enumerate(disp):
        i, j = d // nl, d % nl
        idxs[n] = frame[i * np_sub:(i + 1) * np_sub, j * np_sub:(j + 1) * np_sub].ravel()
    sd = SubapData(idxs, disp, nl, nl, target_device_idx=-1)
    A = (np.ones((N, N)) if rng.random() < 0.5 else pupil(rng, N))
    c.describe(nl=nl, q=q, fov=fov, nsub=len(disp))
    P = sp.simul_params(pixel_pupil=N, pixel_pitch=pitch)
    with sp.quiet():
        s = IdealDerivativeSensor(P, sd, fov, target_device_idx=-1)
    e = mkef(N, pitch, A, 0)

    def sl(ph, t):
        e.phaseInNm[:] = ph
        with sp.quiet():
            if t == 0:
                s.inputs['in_ef'].set(e)
                s.setup()
            e.generation_time = t
            sp.step(s, t)
        o = s.outputs['out_slopes']
        return sp.arr(o.xslopes).astype(float), sp.arr(o.yslopes).astype(float)
    y, x = np.mgrid[:N, :N] - (N - 1) / 2
    K = 1e-9 * 206264.80624709636 / (pitch * fov / 2) * (np_sub - 1) / np_sub
    tol = 1e-6 if c.precision == 0 else 2e-3
    lit = np.array([A[d // nl * q:(d // nl + 1) * q, d % nl * q:(d % nl + 1) * q].max() for d in disp])
    gx, gy = rng.uniform(-50, 50, 2)
    sx, sy = sl(gx * x + gy * y, 0)
    # isolated edge pixels have no second reference to extrapolate from: judge a plane only on the full pupil
    if A.min() == 1:
        c.near(sx, gx * K * lit, 'slope-of-tilt-x', rtol=tol, scale=50 * K)
        c.near(sy, gy * K * lit, 'slope-of-tilt-y', rtol=tol, scale=50 * K)
    # linearity, also for wavefronts that are flat over part of the pupil
    pa = smooth(rng, N, 100.0)
    pb = np.zeros((N, N))
    i, j = rng.integers(0, N, 2)
    pb[i:, j:] = rng.uniform(-60, 60) * (np.mgrid[:N - i, :N - j].sum(axis=0))
    a, b, ab = sl(pa, 1), sl(pb, 2), sl(2 * pa - 3 * pb, 3)
    sc = max(np.max(np.abs(ab)), 1e-6)
    c.near(ab[0], 2 * a[0] - 3 * b[0], 'derivative-linearity', rtol=tol, scale=sc)
    c.near(ab[1], 2 * a[1] - 3 * b[1], 'derivative-linearity', rtol=tol, scale=sc)
    if A.min() == 1:
        for w, ax, got in ((0, 1, b[0]), (1, 0, b[1])):
            gr = np.gradient(pb, axis=ax)
            want = np.array([gr[d // nl * q:(d // nl + 1) * q, d % nl * q:(d % nl + 1) * q].mean() for d in disp]) * K
            c.near(got, want, 'mean-gradient', rtol=tol, scale=np.max(np.abs(want)) + 1e-3 * K)
    c.saw('slope_vectors', 4)


@CHECK.section('laser', quick=12, thorough=240, precisions=(0, 1), chunk=3, timeout=600)
def laser(c):
    """Shack-Hartmann looking at a laser beacon: the spots are broadened by the beam and stretched by the thick sodium layer"""
    import numpy as np
    from harness import sp
    from specula.data_objects.laser_launch_telescope import LaserLaunchTelescope
    from specula.processing_objects.distributed_sh import DistributedSH
    from specula.processing_objects.sh import SH
    rng = c.rng
    nl = int(sp.pick(rng, [1, 2, 3, 4]))
    N = nl * int(sp.pick(rng, [8, 12]))
    D = float(rng.uniform(1.0, 2.0) * nl)
    pitch = D / N
    npx = int(sp.pick(rng, [16, 20, 24]))
    spot = float(rng.uniform(0.9, 1.6))
    zen = float(sp.pick(rng, [0.0, 30.0]))
    am = 1 / np.cos(np.radians(zen))
    kind = str(sp.pick(rng, ['gauss', 'thick', 'thick', 'thin']))
    pos = [float(x) for x in rng.uniform(-1.5, 1.5, size=2) * D / 2] + [0.0] if kind != 'gauss' else []
    zb = 90e3
    nlay = {'gauss': 1, 'thin': 1, 'thick': int(rng.integers(2, 7))}[kind]
    alt = np.sort(rng.uniform(84e3, 98e3, size=nlay)) if kind == 'thick' else np.array([zb])
    w = rng.uniform(0.2, 1, size=nlay)
    tt = [float(x) for x in rng.uniform(-0.4, 0.4, size=2)] if kind != 'gauss' and rng.random() < 0.5 else [0.0, 0.0]
    # geometry of the stretch, arcsec per metre of distance from the launcher
    h = alt * am
    u = (1 / (zb * am) - 1 / h) * 206264.8
    ww = w * (zb * am / h) ** 2
    ww = ww / ww.sum()
    mu, v = (ww * u).sum(), (ww * (u - (ww * u).sum()) ** 2).sum()
    cen = (np.arange(nl) + 0.5) / nl * D - D / 2
    far = max(np.hypot(x - (pos or [0, 0])[0], y - (pos or [0, 0])[1]) for x in cen for y in cen)
    reach = 3.2 * np.sqrt((spot / 2.3548) ** 2 + v * far ** 2) + (abs(mu) + np.sqrt(v)) * far + np.abs(tt).max() + 1.0
    px = float(2 * reach / npx)
    c.describe(kind=kind, nl=nl, N=N, D=D, npx=npx, px=px, spot=spot, zen=zen, pos=pos, alt=alt.tolist(), w=w.tolist(), tt=tt)
    P = sp.simul_params(pixel_pupil=N, pixel_pitch=pitch, zenithAngleInDeg=zen)
    A = np.ones((N, N))

    def mk(lls, d, ns=0):
        nonlocal pos
        with sp.quiet():
            ll = LaserLaunchTelescope(P, spot_size=spot, tel_position=list(pos), beacon_focus=zb, beacon_tt=list(tt), target_device_idx=-1) if lls else None
            if ns:
                return DistributedSH(589.0, px * npx, px, nl, npx, ns, laser_launch_tel=ll, target_device_idx=-1)
            return SH(589.0, px * npx, px, nl, npx, laser_launch_tel=ll, data_dir=d, target_device_idx=-1)

    fields = {}

    def go(o, A, ph, S0, alt=alt, w=w, t=0, setup=True):
        if setup:
            fields[id(o)] = mkef(N, pitch, A, ph, S0)
            o.inputs['in_ef'].set(fields[id(o)])
        ef = fields[id(o)]
        ef.A[:], ef.phaseInNm[:], ef.S0 = A, ph, S0
        ef.generation_time = t
        if pos and o._laser_launch_tel is not None:
            for k, x in (('sodium_altitude', alt), ('sodium_intensity', w)):
                vv = sp.val(np.array(x))
                vv.generation_time = t
                o.inputs[k].set(vv)
        with sp.quiet():
            if setup:
                o.setup()
            sp.step(o, t)
        return sp.arr(o.outputs['out_i'].i).astype(float)

    def stats(im, p):
        y, x = np.mgrid[:npx, :npx] * p - p * (npx - 1) / 2
        res = []
        for j in range(nl):
            for i in range(nl):
                s = im[j * npx:(j + 1) * npx, i * npx:(i + 1) * npx]
                t = s.sum()
                cx, cy = (s * x).sum() / t, (s * y).sum() / t
                res.append((t, cx, cy, (s * (x - cx) ** 2).sum() / t, (s * (y - cy) ** 2).sum() / t, (s * (x - cx) * (y - cy)).sum() / t))
        return np.array(res)
    plain = mk(False, '')
    z = np.zeros((N, N))
    S0 = float(rng.uniform(1, 100))
    i0 = go(plain, A, z, S0)
    o = mk(True, f'k{c.i}')
    i1 = go(o, A, z, S0)
    p = o._sensor_pxscale * 206264.8
    tol = 1e-8 if c.precision == 0 else 2e-4
    tot = S0 * (D ** 2)
    c.near(i1.sum(), tot, 'laser:total', rtol=tol, atol=0)
    c.check(i1.min() >= -tol * i1.max(), 'laser:negative', least=float(i1.min()), most=float(i1.max()))
    s0, s1 = stats(i0, p), stats(i1, p)
    c.near(s1[:, 0], s0[:, 0], 'laser:light-of-each-spot', rtol=3e-2, atol=0)
    k = 0
    g = (spot / 2.3548) ** 2
    ge = g * ((ww * (zb * am / h) ** 2).sum() - 1)
    d = s1 - s0
    sg = s1
    if pos:
        keep, pos = pos, []
        sg = stats(go(mk(True, f'k{c.i}'), A, z, S0), p)
        pos = keep
    for j in range(nl):
        for i in range(nl):
            dx, dy = (cen[i] - pos[0], cen[j] - pos[1]) if pos else (0.0, 0.0)
            # the diffraction wings leave the field: the beam adds a bit less than its own variance
            c.check(np.all(d[k, 3:5] > 0.6 * g - 0.02 * p ** 2) and (kind == 'thick' or np.all(d[k, 3:5] < 1.1 * g + 0.02 * p ** 2)), f'laser:{kind}:beam', got=d[k, 3:].tolist(), want=g)
            if kind != 'gauss':
                want = np.array([v * dx * dx + ge, v * dy * dy + ge, v * dx * dy])
                got = s1[k, 3:] - sg[k, 3:]
                c.check(np.all(np.abs(got - want) <= 0.2 * (abs(want[0]) + abs(want[1]) + abs(ge)) + 0.03 * p ** 2), f'laser:{kind}:spread', sub=(i, j), got=got.tolist(), want=want.tolist(), px=p)
            k += 1
    # the displacement of the spots follows the mean altitude (same sign everywhere)
    off = d[:, 1:3] - d[:, 1:3].mean(0)
    wx = np.array([[cen[i], cen[j]] for j in range(nl) for i in range(nl)]) * mu if pos else np.zeros((nl * nl, 2))
    wx = wx - wx.mean(0)
    sgn = 1 if (off * wx).sum() >= 0 else -1
    c.check(np.all(np.abs(off - sgn * wx) <= 0.12 * np.abs(wx).max() + 0.02 * p), f'laser:{kind}:displacement', got=off.tolist(), want=wx.tolist())
    mean = np.array(tt) - (mu * np.array(pos[:2]) if pos else 0)
    c.check(min(np.abs(d[:, 1:3].mean(0) - s * mean).max() for s in (1, -1)) <= 0.12 * np.abs(mean).max() + 0.04 * p + 0.1 * abs(mu) * D if mu == 0 or not any(tt) else True,
            f'laser:{kind}:mean-displacement', got=d[:, 1:3].mean(0).tolist(), want=mean.tolist())
    c.saw('laser spots', nl * nl)
    # sensor laws
    q = int(rng.integers(3))
    ph = smooth(rng, N, 60.0)
    Ap = pupil(rng, N)
    oa = mk(True, f'k{c.i}')
    a = go(oa, Ap, ph, S0)
    if np.isfinite(a).all():
        b = go(oa, Ap, ph + 137.0, S0 * 3, t=2, setup=False)
        c.near(b, 3 * a, 'laser:piston-and-flux', rtol=0, atol=(5e-3 if oa.ef_interpolator.do_interpolation else 1e-9 if c.precision == 0 else 1e-3) * a.max() * 3)   # (resampling is not exact at the edges)
    # another profile for a while, then back; and a second sensor that finds the kernels on disk
    if pos:
        other = go(o, A, z, S0, alt=alt + 2000.0, w=w * 2, t=3, setup=False)
        c.check(nl == 1 or not np.array_equal(other, i1) or nlay == 1, 'laser:profile-ignored')
    back = go(o, A, z, S0, t=4, setup=False)
    c.near(back, i1, 'laser:back-to-the-first-profile', rtol=0, atol=0)
    o2 = mk(True, f'k{c.i}')
    c.check(np.array_equal(go(o2, A, z, S0), i1), 'laser:kernels-from-file')
    # the same sensor split in groups of rows, each convolving its own sub-apertures
    if nl > 1 and pos:
        ns = int(rng.integers(2, nl + 1))
        o4 = mk(True, f'k{c.i}', ns)
        split = go(o4, Ap, ph, S0)
        if np.isfinite(a).all():
            c.near(split, a, 'laser:distributed', rtol=1e-9 if c.precision == 0 else 1e-4, slices=ns)
            c.saw('distributed laser frames')
    if pos:
        # rotating launcher by 90 degrees rotates the spots
        pos[:] = [-pos[1], pos[0], 0.0]
        tt[:] = [0.0, 0.0] if not any(tt) else tt
        if not any(tt):
            o3 = mk(True, f'k{c.i}')
            s3 = stats(go(o3, A, z, S0), p)
            v1, v3 = d[:, 3:].reshape(nl, nl, 3), (s3 - s0)[:, 3:].reshape(nl, nl, 3)
            # (x, y) -> (-y, x): sub-aperture [j, i] moves to [i, nl-1-j]
            want = np.zeros_like(v1)
            for j in range(nl):
                for i in range(nl):
                    want[i, nl - 1 - j] = v1[j, i, 1], v1[j, i, 0], -v1[j, i, 2]
            c.near(v3, want, 'laser:rotated-launcher', rtol=0, atol=0.04 * np.abs(v1).max() + 0.01 * p ** 2)
            c.saw('rotated launchers')


@CHECK.section('bad_flux', quick=4, thorough=12, precisions=(0,))
def bad_flux(c):
    """Polychromatic sensors refuse wavelength, flux and tilt lists that do not match each other."""
    from harness import sp
    from specula.processing_objects.poly_chrom_sh import PolyChromSH
    from specula.processing_objects.poly_crom_pyramid import PolyCromPyramid
    rng = c.rng
    n = int(rng.integers(1, 4))
    wl = [600.0 + 50 * i for i in range(n)]
    bad = [n - 1, n + 1][c.i % 2]
    what = ['flux', 'tilt'][c.i // 2 % 2]
    flux = [1.0] * (bad if what == 'flux' else n)
    kw = dict(xy_tilts_in_arcsec=[[0.0, 0.0]] * bad) if what == 'tilt' else {}
    c.describe(n=n, bad=bad, what=what)
    P = sp.simul_params(pixel_pupil=16, pixel_pitch=0.1)
    with sp.quiet():
        c.raises(ValueError, lambda: PolyChromSH(wl, flux, 4.0, 0.5, 2, 8, target_device_idx=-1, **kw), 'mismatched-lists:sh')
        c.raises(ValueError, lambda: PolyCromPyramid(simul_params=P, wavelengthInNm=wl, flux_factor=flux, fov=1.0, pup_diam=8,
                                                     output_resolution=30, mod_amp=2.0, target_device_idx=-1, **kw), 'mismatched-lists:pyramid')
    c.saw('refusals', 2)


@CHECK.section('pupils', quick=16, thorough=480, precisions=(0, 1), timeout=600)
def pupils(c):
    """A flat wavefront draws the four pupils of a pyramid where, and as large as, they were requested."""
    import numpy as np
    from harness import sp
    rng = c.rng
    kind = sp.pick(rng, ['pyr', 'pyr', 'roof', 'roof', 'poly', 'zernike'])
    N = sp.pick(rng, [24, 32, 40])
    pd = int(rng.integers(4, 10)) * 2
    margin = int(rng.integers(1, 4))
    dist = pd + 2 * margin + 2 * int(rng.integers(0, pd))
    outr = dist + pd + 2 * margin + 2 * int(rng.integers(1, 8))
    amp = float(rng.integers(2, 5))
    shift = (0.0, 0.0) if rng.random() < 0.6 else tuple(float(v) for v in rng.uniform(-1.5, 1.5, 2))
    wl = 700.0
    fov = wl * 1e-9 / 1.0 * 206264.8 * N * rng.uniform(0.6, 0.9)
    kw = dict(pup_dist=dist, pup_margin=margin, mod_amp=amp, target_device_idx=-1)
    if rng.random() < 0.5:
        kw['fft_res'] = float(rng.uniform(3, 4.5))
    if rng.random() < 0.2:
        kw.pop('pup_dist')
        dist = pd + 2 * margin
    if kind != 'zernike' and shift != (0.0, 0.0):
        kw['pup_shifts'] = shift
    c.describe(kind=kind, N=N, pup_diam=pd, pup_dist=dist, margin=margin, resolution=outr, amp=amp, shift=shift, fft_res=kw.get('fft_res'))
    P = sp.simul_params(pixel_pupil=N, pixel_pitch=1.0 / N)
    y, x = np.mgrid[:N, :N] - (N - 1) / 2
    A = (np.hypot(x, y) < N / 2).astype(float)
    with sp.quiet():
        if kind == 'pyr':
            from specula.processing_objects.modulated_pyramid import ModulatedPyramid
            o = ModulatedPyramid(P, wl, fov, pd, outr, **kw)
        elif kind == 'roof':
            from specula.processing_objects.modulated_double_roof import ModulatedDoubleRoof
            o = ModulatedDoubleRoof(P, wl, fov, pd, outr, **kw)
        elif kind == 'poly':
            from specula.processing_objects.poly_crom_pyramid import PolyCromPyramid
            o = PolyCromPyramid(simul_params=P, wavelengthInNm=[wl, 1.1 * wl], flux_factor=[0.5, 0.5], fov=fov, pup_diam=pd, output_resolution=outr, **kw)
        else:
            from specula.processing_objects.zernike_sensor import ZernikeSensor
            o = ZernikeSensor(P, wl, fov, pd, outr, fft_res=kw.get('fft_res', 3.0), target_device_idx=-1)
    img = images(run(o, mkef(N, 1.0 / N, A, np.zeros((N, N)))))['out_i']
    c.check(img.shape == (outr, outr), 'pupil-frame-shape', shape=img.shape)
    h = outr // 2
    if kind == 'zernike':
        quads = [(img, 0, 0, (outr - 1) / 2, (outr - 1) / 2)]
    else:
        lo, hi = (outr - 1 - dist) / 2, (outr - 1 + dist) / 2
        quads = [(img[:h, :h], 0, 0, lo, lo), (img[:h, h:], 0, h, lo, hi), (img[h:, :h], h, 0, hi, lo), (img[h:, h:], h, h, hi, hi)]
    moved = []
    for q, r0, c0, er, ec in quads:
        t = np.where(q > np.percentile(q[q > 0], 99) * 0.4, q, 0)
        yy, xx = np.mgrid[:q.shape[0], :q.shape[1]]
        on = t > 0
        # centre of the lit area (not of the light: diffraction at the edges is uneven)
        cy, cx = yy[on].mean() + r0, xx[on].mean() + c0
        diam = 2 * np.sqrt(on.sum() / np.pi)
        moved.append((cy - er, cx - ec))
        c.near(diam, pd, f'pupil-diameter:{kind}', rtol=0, atol=0.3 * pd if kind == 'zernike' else max(1.3, 0.1 * pd))
        if kind != 'zernike':
            c.near(q.sum() / img.sum(), 0.25, f'pupil-light:{kind}', rtol=0, atol=0.02)
    m = np.mean(moved, 0)
    # the requested shift moves all the pupils together (its sign convention is not judged)
    c.near(abs(m[0]), abs(shift[1]) if kind != 'zernike' else 0, f'pupil-shift:{kind}', rtol=0, atol=0.6, moved=moved)
    c.near(abs(m[1]), abs(shift[0]) if kind != 'zernike' else 0, f'pupil-shift:{kind}', rtol=0, atol=0.6, moved=moved)
    for v in moved:
        c.near(np.array(v), m, f'pupil-distance:{kind}', rtol=0, atol=0.75, moved=moved)
    c.saw('pupil_images', len(quads))


@CHECK.section('interferometer', quick=30, thorough=900, precisions=(0, 1), chunk=6, timeout=600)
def interferometer(c):
    """A rotational shearing interferometer shows the interference of the field with its own rotated, shifted, magnified and tilted copy."""
    import numpy as np
    from harness import sp
    from specula.lib.extrapolation_2d import EFInterpolator
    from specula.processing_objects.ciao_ciao_sensor import CiaoCiaoSensor
    from specula.processing_objects.ciao_ciao_slopec import CiaoCiaoSlopec
    rng = c.rng
    N = int(sp.pick(rng, [16, 24, 32, 48]))
    pitch = float(rng.uniform(0.05, 0.3))
    wl = float(rng.uniform(500, 2500))
    kw = {}
    some = lambda name, v, p=0.4: kw.update({name: v}) if rng.random() < p else None
    some('diffRotAngleInDeg', float(sp.pick(rng, [0, 90, 180, rng.uniform(-180, 180)])), 0.7)
    some('rotAnglePhInDeg', float(rng.uniform(-90, 90)))
    some('xShiftPhInPixel', float(rng.uniform(-2, 2)))
    some('yShiftPhInPixel', float(rng.uniform(-2, 2)), 0.2)
    some('magnification', float(rng.uniform(0.8, 1.2)), 0.2)
    some('xShiftDiffPhInPixel', float(rng.uniform(-2, 2)))
    some('yShiftDiffPhInPixel', float(rng.uniform(-2, 2)), 0.2)
    some('magnificationDiff', float(rng.uniform(0.8, 1.2)), 0.2)
    some('channel_flux', float(sp.pick(rng, [0, 1, 0.5, rng.random()])), 0.5)
    f = [int(v) for v in rng.integers(-3, 4, 2)]       # fringes across the field
    tilt = [v * wl * 1e-9 / (N * pitch) * 180 / np.pi * 3600 for v in f]
    scalar = bool(rng.integers(2)) and f[1] == 0
    norm = bool(rng.random() < 0.6)
    npx = N if rng.random() < 0.6 else int(sp.pick(rng, [N // 2, N // 4, N - 3, N // 2 + 1]))
    A = pupil(rng, N)
    T = 3
    phs = [smooth(rng, N, 0.15 * wl) for _ in range(T)]
    S0s = [float(rng.uniform(0.5, 50)) for _ in range(T)]
    c.describe(N=N, npx=npx, norm=norm, fringes=f, **{k: round(v, 3) for k, v in kw.items()})
    o = CiaoCiaoSensor(wl, npx, tiltInArcsec=tilt[0] if scalar else tilt, normalize_flux=norm, target_device_idx=-1, **kw)
    twin = CiaoCiaoSensor(wl, npx, tiltInArcsec=tilt, target_device_idx=-1, xShiftPhInPixel=1.0, diffRotAngleInDeg=45.0) if rng.random() < 0.5 else None
    e = mkef(N, pitch, A, phs[0])
    e2 = mkef(N, pitch, A[::-1].copy(), phs[0] * 2)
    with sp.quiet():
        o.inputs['in_ef'].set(e)
        o.setup()
        if twin:
            twin.inputs['in_ef'].set(e2)
            twin.setup()
    y, x = np.mgrid[:N, :N]
    ramp = 2 * np.pi * (f[0] * (x - N / 2) + f[1] * (y - N / 2)) / N
    tol = 1e-7 if c.precision == 0 else 4e-3
    cf = kw.get('channel_flux', 0.5)

    def branch(src, rot, sx, sy, mag):
        it = EFInterpolator(src, (N, N), rotAnglePhInDeg=rot, xShiftPhInPixel=sx, yShiftPhInPixel=sy, magnification=mag, target_device_idx=-1)
        it.interpolate()
        r = it.interpolated_ef()
        return mkef(N, pitch, sp.arr(r.A), sp.arr(r.phaseInNm))
    for t in range(T):
        e.phaseInNm[:] = phs[t]
        e.S0 = S0s[t]
        e.generation_time = e2.generation_time = t
        with sp.quiet():
            objs = [q for q in ([twin, o] if rng.random() < 0.5 else [o, twin]) if q]
            for q in objs:
                q.check_ready(t)
            for q in objs:
                q.trigger()
            for q in objs:
                q.post_trigger()
        got = out(o)['out_i']
        b0 = branch(mkef(N, pitch, A, phs[t]), kw.get('rotAnglePhInDeg', 0), kw.get('xShiftPhInPixel', 0), kw.get('yShiftPhInPixel', 0), kw.get('magnification', 1))
        b1 = branch(b0, kw.get('diffRotAngleInDeg', 180.0), kw.get('xShiftDiffPhInPixel', 0), kw.get('yShiftDiffPhInPixel', 0), kw.get('magnificationDiff', 1))
        fld = lambda b: sp.arr(b.A).astype(float) * np.exp(2j * np.pi * sp.arr(b.phaseInNm).astype(float) / wl)
        E = np.sqrt(2 * cf) * fld(b0) + np.sqrt(2 * (1 - cf)) * np.exp(1j * ramp) * fld(b1)
        I = np.abs(E) ** 2
        c.check(bool((got >= 0).all()) and bool(np.isfinite(got).all()), 'interferometer:negative', 'intensities are negative or not finite')
        budget = S0s[t] * A.sum() * pitch ** 2
        if norm:
            c.near(got.sum(), budget, 'interferometer:photons', rtol=1e-9 if c.precision == 0 else 1e-4, N=N, npx=npx)
            I = I * budget / I.sum()
        if npx == N:
            c.near(got, I, 'interferometer:fringes', rtol=tol, scale=I.max(), t=t)
        elif N % npx == 0:
            r = N // npx
            c.near(got, I.reshape(npx, r, npx, r).sum(axis=(1, 3)), 'interferometer:rebinned', rtol=tol, scale=I.max() * r * r, t=t)
        else:
            c.near(got.sum(), I.sum(), 'interferometer:rebinned-total', rtol=max(tol, 1e-6), t=t)
        c.check(np.array_equal(sp.arr(e.phaseInNm), np.asarray(phs[t], dtype=e.phaseInNm.dtype)), 'interferometer:input-changed', 'the input field was modified')
        c.check(o.outputs['out_i'].generation_time == t, 'interferometer:time', 'output not refreshed')
        c.saw('interferograms')
    if rng.random() < 0.5:
        # the slope computer looking at one side band finds the difference between the two branches
        car = max(4, N // 5)
        P = smooth(rng, N, 0.05 * wl)
        rot = float(sp.pick(rng, [90.0, 180.0]))
        with sp.quiet():
            w = CiaoCiaoSensor(wl, N, diffRotAngleInDeg=rot, tiltInArcsec=car * wl * 1e-9 / (N * pitch) * 180 / np.pi * 3600, target_device_idx=-1)
        src = mkef(N, pitch, np.ones((N, N)), P)
        im = run(w, src)['out_i']
        from specula.data_objects.pixels import Pixels
        px = Pixels(N, N, target_device_idx=-1)
        px.pixels[:] = im
        px.generation_time = 0
        sl = CiaoCiaoSlopec(wl, N // 2 + car, N // 2, car / 2.2, None, target_device_idx=-1)
        sl.inputs['in_pixels'].set(px)
        with sp.quiet():
            sl.setup()
            sp.step(sl, 0)
        opd = sp.arr(sl.outputs['out_slopes'].slopes).reshape(N, N)
        want = sp.arr(branch(src, rot, 0, 0, 1).phaseInNm) - P
        m = slice(N // 4, -N // 4)
        d = (opd - want)[m, m]
        d = np.angle(np.exp(2j * np.pi * d / wl) / np.exp(2j * np.pi * d / wl).mean()) * wl / (2 * np.pi)     # up to a piston
        c.check(d.std() < 0.35 * want[m, m].std() + 0.01 * wl, 'interferometer:recovered', f'difference of the branches not recovered: error {d.std()} of {want[m, m].std()}')
        c.saw('differences-recovered')


@CHECK.section('phase_spot', quick=16, thorough=500, precisions=(0, 1), chunk=4, timeout=600)
def phase_spot(c):
    """A Zernike sensor is a phase-shifting spot: no shift, a whole wave, no spot or a spot covering everything leave the pupil image alone, and
    conjugating both the field and the spot leaves the image alone."""
    import numpy as np
    from harness import sp
    from specula.processing_objects.zernike_sensor import ZernikeSensor
    rng = c.rng
    g = geometry(rng, 'zernike')
    N = g['N']
    A = pupil(rng, N)
    y, x = np.mgrid[:N, :N] - (N - 1) / 2
    ph = smooth(rng, N, float(rng.uniform(0.02, 0.12)) * g['wl'])
    P = sp.simul_params(pixel_pupil=N, pixel_pitch=g['pitch'])
    r, s = float(rng.uniform(0.4, 2.5)), float(rng.uniform(0.1, 0.9))
    c.describe(**g, radius=r, shift=s)

    def im(phase, radius, shift):
        with sp.quiet():
            o = ZernikeSensor(P, g['wl'], g['fov'], g['pup'], g['ccd'], spot_radius_lambda=radius, phase_shift_pi=shift, fft_res=g['fftres'], target_device_idx=-1)
        return run(o, mkef(N, g['pitch'], A, phase))['out_i']
    tol = 1e-6 if c.precision == 0 else 5e-3
    plain = im(ph, r, 0.0)
    c.near(im(ph, r, 2.0), plain, 'phase-spot:whole-wave', rtol=tol, scale=plain.max())
    c.near(im(ph, 0.0, s), plain, 'phase-spot:no-spot', rtol=tol, scale=plain.max())
    c.near(im(ph, 1e4, s), plain, 'phase-spot:spot-everywhere', rtol=tol, scale=plain.max())
    c.near(im(ph * 0, r, 0.0), plain, 'phase-spot:pupil-image-insensitive-to-phase', rtol=0.25, scale=plain.max())
    a = im(ph, r, s)
    c.near(im(-ph, r, -s), a, 'phase-spot:conjugate', rtol=tol, scale=a.max())
    c.near(im(ph, r, s + 2), a, 'phase-spot:periodic', rtol=tol, scale=a.max())
    # written out: to the focus, through the spot, back (images compared through their total over the pupil and their contrast)
    big, foc = 8 * N, None
    k = (np.arange(big) - big / 2 + 0.5)
    F = np.exp(-2j * np.pi * np.outer(k, np.arange(N)) / big)
    E = A * np.exp(2j * np.pi * ph / g['wl'])
    foc = F @ E @ F.T
    M = np.where(np.hypot(k[:, None], k) * N / big < r, np.exp(1j * np.pi * s), 1)
    back = np.abs(F.conj().T @ (foc * M) @ F.conj() / big ** 2) ** 2
    flat = np.abs(E) ** 2
    # the response, as a map on the pupil, against the response the optics gives
    d = a - plain
    w = back - flat
    c.check(abs(d.sum()) < 0.3 * np.abs(a).sum() and np.isfinite(d).all(), 'phase-spot:light', 'light lost at the spot')
    res = np.sqrt((d ** 2).sum() / (plain ** 2).sum()) / np.sqrt((w ** 2).sum() / (flat ** 2).sum())
    c.check(0.5 < res < 1.7, 'phase-spot:response', f'response of the sensor is {res} times that of its optics', r=r, s=s)
    c.saw('spots')


@CHECK.section('filtered', quick=10, thorough=300, precisions=(0, 1), chunk=3, timeout=600)
def filtered(c):
    """Without streams a pyramid drops the faint points of an extended source and gives their light to the four faces; it follows a source that changes,
    also in its number of points, and forgets the previous one."""
    import numpy as np
    from harness import sp
    from specula.processing_objects.ext_source_pyramid import ExtSourcePyramid
    rng = c.rng
    g = geometry(rng, 'pyr')
    N = g['N']
    A = pupil(rng, N)
    ph = smooth(rng, N, 0.1 * g['wl'])
    thr = float(10 ** rng.uniform(-3, -1))
    bs = int(sp.pick(rng, [2, 3, 128]))
    T = int(rng.integers(2, 5))
    c.describe(**g, thr=thr, bs=bs, T=T)
    P = sp.simul_params(pixel_pupil=N, pixel_pitch=g['pitch'])

    def make(stream):
        with sp.quiet():
            return ExtSourcePyramid(P, g['wl'], g['fov'], g['pup'], g['ccd'], fov_errinf=0.1, fft_res=g['fftres'], max_batch_size=bs, cuda_stream_enable=stream, max_flux_ratio_thr=thr, target_device_idx=-1)

    def source():
        n = int(rng.integers(2, 12))
        co = np.zeros((n, 4))
        co[:, :2] = rng.uniform(-3, 3, (n, 2))
        co[:, 3] = rng.uniform(0.3, 1, n)
        faint = rng.random(n) < 0.4
        co[faint, 3] = thr * rng.uniform(0.05, 0.25, faint.sum())
        return co
    o = make(False)
    co = source()
    v = sp.val(np.array(co, dtype=o.dtype), t=0)
    o.inputs['ext_source_coeff'].set(v)
    tol = 1e-8 if c.precision == 0 else 3e-3
    e = mkef(N, g['pitch'], A, ph)
    for t in range(T):
        if t:
            if rng.random() < 0.7:
                co = source()
                v.value = np.array(co, dtype=o.dtype)
                v.generation_time = t
                c.saw('sources-changed')
            else:
                e.phaseInNm[:] = smooth(rng, N, 0.1 * g['wl'])
        e.generation_time = t
        with sp.quiet():
            if t == 0:
                o.inputs['in_ef'].set(e)
                o.setup()
            sp.step(o, t)
        got = out(o)
        drop = co[:, 3] <= thr * co[:, 3].max()
        r = (o.fov / 2) / (o.fov_res * o.fft_res)
        face = np.array([[r, 0, 0, 1], [0, r, 0, 1], [-r, 0, 0, 1], [0, -r, 0, 1]]) * [1, 1, 1, co[drop, 3].sum() / 4]
        same = np.vstack([co[~drop], face]) if drop.any() else co
        ref = make(True)
        ref.inputs['ext_source_coeff'].set(sp.val(np.array(same, dtype=o.dtype), t=0))
        want = run(ref, mkef(N, g['pitch'], A, sp.arr(e.phaseInNm)))
        for k in ('out_i', 'out_psf_bfm'):
            c.near(got[k], want[k], f'filtered:{k}', rtol=tol, scale=want[k].max(), t=t, points=len(co), dropped=int(drop.sum()))
        c.near(got['out_i'].sum() / want['out_i'].sum(), 1, 'filtered:light', rtol=max(tol, 1e-6), t=t)
        c.saw('points-dropped', int(drop.sum()))
        c.saw('frames')
