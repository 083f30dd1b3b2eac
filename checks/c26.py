"""C26: sensor geometry calibration finds the true sub-apertures and pupils; stored geometry reproduces the same pixel sets."""
from harness.vf import CheckDef
CHECK = CheckDef('C26', rule=(
    'Random detector images with known geometry (illuminated cells of a lenslet grid, four pupils at random positions, sizes, backgrounds and noise) are given to the real calibrators; the selected cells, the tiling of the pixel '
    'sets, centres, radii, pupil order, disjointness and mutual translation are compared with the geometry that generated the image, the saved files with what was measured, and slopes computed with the calibrated geometry with '
    'those of the known intensities. The interactive calibrators are driven by random schedules of frames, triggers, parameter changes, bad frames and saves, followed step by step by a reference model. Distinct by image and schedule.'),
    assumptions=['frames are a whole number of pixels per lenslet', 'pupils entirely inside their quadrant, noise below the first threshold',
                 'the radius of obstructed pupils is not judged (area-equivalent by design)', 'interactive saves use new file names'])


def sh_image(rng, n, npx):
    """(image, cell sums) with flux in cells; sums well separated from any threshold by the caller"""
    import numpy as np
    w = rng.random((n, n)) ** float(rng.uniform(0.3, 3))
    if rng.random() < 0.3:
        w[rng.random((n, n)) < 0.4] = 0
    w[rng.integers(n), rng.integers(n)] = 1.0
    im = np.zeros((n * npx, n * npx))
    for i in range(n):
        for j in range(n):
            cell = rng.random((npx, npx)) ** 3 + 1e-3
            if rng.random() < 0.3:          # everything in one pixel, anywhere in the cell (corners included)
                cell[:] = 0
                cell[rng.integers(npx), rng.integers(npx)] = 1
            im[i * npx:(i + 1) * npx, j * npx:(j + 1) * npx] = w[i, j] * cell / cell.sum()
    return im, w


@CHECK.section('subapertures', quick=200, thorough=60000)
def subapertures(c):
    import os
    import numpy as np
    from harness import sp
    from specula.data_objects.intensity import Intensity
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.subap_data import SubapData
    from specula.processing_objects.sh_subap_calibrator import ShSubapCalibrator
    from specula.processing_objects.sh_slopec import ShSlopec
    rng, prec = c.rng, c.precision
    n, npx = int(rng.integers(1, 13)), int(rng.integers(2, 11))
    th = float(sp.pick(rng, [0.0, 0.05, 0.3, 0.5, 0.9, float(rng.uniform(0, 0.98))]))
    im, w = sh_image(rng, n, npx)
    flux = 10 ** rng.uniform(-2, 5)
    as_pixels = bool(rng.random() < 0.5)
    c.describe(n=n, npx=npx, th=th, as_pixels=as_pixels, flux=flux, prec=prec, w=w.round(4).tolist())
    truth = w / w.max()
    if np.any(np.abs(truth - th) < 1e-5) and th > 0:
        c.skip()
        return
    keep = truth > th
    N = n * npx
    data = Pixels(N, N) if as_pixels else Intensity(N, N)
    arr = data.pixels if as_pixels else data.i
    arr[:] = im * flux
    data.generation_time = 0
    tag = sp.pick(rng, ['sub', 'sub.fits', 'a.b'])
    kw = dict(output_tag=tag) if rng.random() < 0.7 else dict(tag_template=tag, output_tag=sp.pick(rng, [None, 'auto']))
    cal = ShSubapCalibrator(subap_on_diameter=n, data_dir='out', energy_th=th, **kw)
    cal.inputs['in_pixels' if as_pixels else 'in_i'].set(data)
    cal.check_ready(0)
    cal.setup()
    cal.trigger()
    cal.post_trigger()
    s = cal.subaps
    c.saw('sub-aperture kept', int(keep.sum()))
    c.saw('sub-aperture rejected', int((~keep).sum()))
    idx = np.asarray(s.idxs)
    if not c.check(idx.shape == (keep.sum(), npx * npx), 'subap:number', f'{idx.shape[0]} sub-apertures of {idx.shape[1]} pixels, expected {keep.sum()} of {npx * npx}'):
        return
    c.check(np.unique(idx).size == idx.size and idx.min() >= 0 and idx.max() < N * N, 'subap:overlap', 'pixels shared between sub-apertures or outside the frame')
    # every set is one kept cell, in row-major order
    r, q = np.divmod(idx, N)
    ci, cj = r // npx, q // npx
    ok = np.all(ci == ci[:, :1]) and np.all(cj == cj[:, :1])
    if not c.check(ok, 'subap:cells', 'a sub-aperture mixes pixels of several cells'):
        return
    got = np.zeros((n, n), bool)
    got[ci[:, 0], cj[:, 0]] = True
    c.check(np.array_equal(got, keep), 'subap:selection', 'selected cells are not those above the threshold')
    local = (r - ci * npx) * npx + (q - cj * npx)
    c.check(np.all(local == np.arange(npx * npx)), 'subap:order', 'pixels not in row-major order')
    dm = np.asarray(s.display_map)
    ij, ji = ci[:, 0] * n + cj[:, 0], cj[:, 0] * n + ci[:, 0]
    c.check(np.array_equal(dm, ij) or np.array_equal(dm, ji), 'subap:display map', 'display positions do not match the cells')
    m = np.asarray(s.single_mask()) > 0
    c.check(np.array_equal(m, keep) or np.array_equal(m, keep.T), 'subap:mask', 'mask does not match the kept cells')
    c.check((s.n_subaps, s.np_sub, s.nx, s.ny) == (int(keep.sum()), npx, n, n), 'subap:sizes', str((s.n_subaps, s.np_sub, s.nx, s.ny)))
    # the file holds the same sets
    cal.finalize()
    name = 'out/' + (tag if tag.endswith('.fits') else tag + '.fits')
    if c.check(os.path.exists(name), 'subap:file', f'{os.listdir("out")}'):
        f = SubapData.restore(name)
        c.check(np.array_equal(f.idxs, s.idxs) and np.array_equal(f.display_map, s.display_map) and (f.nx, f.ny, f.np_sub) == (s.nx, s.ny, s.np_sub) and abs(f.energy_th - s.energy_th) < 1e-9,
                'subap:restored', 'stored sub-apertures differ')
        s = f
    # slopes measured with it: one pixel lit in each cell, its position within the cell is the slope
    px = Pixels(N, N)
    a, b = rng.integers(0, npx, (n, n)), rng.integers(0, npx, (n, n))
    for i in range(n):
        for j in range(n):
            px.pixels[i * npx + a[i, j], j * npx + b[i, j]] = 100.0
    px.generation_time = 1
    sl = ShSlopec(subapdata=s)
    sl.inputs['in_pixels'].set(px)
    sl.check_ready(1)
    sl.setup()
    sl.trigger()
    sl.post_trigger()
    out = sl.outputs['out_slopes']
    pos = lambda k: 2 * ((k[ci[:, 0], cj[:, 0]] + 0.5) / npx) - 1
    c.near(np.asarray(out.xslopes), pos(b), 'subap:x slopes', atol=1e-5)
    c.near(np.asarray(out.yslopes), pos(a), 'subap:y slopes', atol=1e-5)


@CHECK.section('subapertures-refused', quick=10, thorough=40)
def subapertures_refused(c):
    import numpy as np
    from harness import sp
    from specula.data_objects.intensity import Intensity
    from specula.data_objects.pixels import Pixels
    from specula.processing_objects.sh_subap_calibrator import ShSubapCalibrator
    n, npx = int(c.rng.integers(1, 6)), int(c.rng.integers(2, 6))
    kind = ['dark', 'high', 'none', 'both', 'notag'][c.i % 5]
    c.describe(n=n, npx=npx, kind=kind)
    c.saw(kind)
    if kind == 'notag':
        c.raises(ValueError, lambda: ShSubapCalibrator(subap_on_diameter=n, data_dir='out', energy_th=0.1), 'subap:no tag accepted')
        return
    cal = ShSubapCalibrator(subap_on_diameter=n, data_dir='out', energy_th=1.0 if kind == 'high' else 0.2, output_tag='x')
    i, p = Intensity(n * npx, n * npx), Pixels(n * npx, n * npx)
    i.i[:] = 0 if kind == 'dark' else c.rng.random(i.i.shape)
    i.generation_time = p.generation_time = 0
    if kind != 'none':
        cal.inputs['in_i'].set(i)
    if kind == 'both':
        cal.inputs['in_pixels'].set(p)
    cal.check_ready(0)
    if kind in ('none', 'both'):
        c.raises(ValueError, cal.setup, 'subap:bad inputs accepted')
    else:
        cal.setup()
        c.raises(ValueError, cal.trigger, 'subap:no sub-apertures accepted')


def pupils_image(rng, half, R, centres, aa, e=0.0):
    """sum of four discs on a (2*half)^2 frame; centres (x, y) in pixels"""
    import numpy as np
    os_ = 8 if aa else 1
    n = 2 * half
    g = (np.arange(n * os_) + 0.5) / os_ - 0.5
    im = np.zeros((n, n))
    for x, y in centres:
        d2 = (g[None, :] - x) ** 2 + (g[:, None] - y) ** 2
        m = ((d2 <= R * R) & (d2 >= (e * R) ** 2)).astype(float)
        im += m.reshape(n, os_, n, os_).mean(axis=(1, 3))
    return im


def geometry(rng, equal_shift=None):
    """(half, R, centres in the order A, B, C, D)"""
    import numpy as np
    R = float(rng.uniform(4, 16))
    half = int(np.ceil(2 * R + rng.uniform(5, 12)))
    lo, hi = R + 2, half - 3 - R
    q = [(1, 0), (0, 0), (0, 1), (1, 1)]
    cen = []
    for qx, qy in q:
        x, y = rng.uniform(lo, hi, 2) if hi > lo else (half / 2, half / 2)
        cen.append((qx * half + x, qy * half + y))
    return half, R, cen


def measure(im, prec, as_pixels=False, **kw):
    from specula.data_objects.intensity import Intensity
    from specula.data_objects.pixels import Pixels
    from specula.processing_objects.pyr_pupdata_calibrator import PyrPupdataCalibrator
    h, w = im.shape
    d = Pixels(w, h) if as_pixels else Intensity(w, h)
    (d.pixels if as_pixels else d.i)[:] = im
    d.generation_time = 0
    cal = PyrPupdataCalibrator(data_dir='out', **kw)
    cal.inputs['in_pixels' if as_pixels else 'in_i'].set(d)
    cal.check_ready(0)
    cal.setup()
    cal.trigger()
    cal.post_trigger()
    return cal


def snapshot(p):
    from types import SimpleNamespace
    import numpy as np
    return SimpleNamespace(**{k: np.array(getattr(p, k)) for k in ('ind_pup', 'radius', 'cx', 'cy', 'framesize', 'slopes_from_intensity')}, generation_time=p.generation_time)


def same_pupdata(a, b):
    import numpy as np
    return (np.array_equal(a.ind_pup, b.ind_pup) and np.allclose(a.radius, b.radius, rtol=1e-6, atol=0) and np.allclose(a.cx, b.cx, rtol=1e-6) and np.allclose(a.cy, b.cy, rtol=1e-6)
            and tuple(int(k) for k in a.framesize) == tuple(int(k) for k in b.framesize) and bool(a.slopes_from_intensity) == bool(b.slopes_from_intensity))


@CHECK.section('pupils', quick=250, thorough=60000)
def pupils(c):
    import os
    import numpy as np
    from harness import sp
    from specula.data_objects.pupdata import PupData
    from specula.data_objects.pixels import Pixels
    from specula.processing_objects.pyr_slopec import PyrSlopec
    rng, prec = c.rng, c.precision
    half, R, cen = geometry(rng)
    aa = bool(rng.random() < 0.5)
    bg = float(sp.pick(rng, [0, 0, 0.3, -0.2, 2.0]))
    noise = float(sp.pick(rng, [0, 0, 0.02]))
    flux = float(10 ** rng.uniform(-2, 5))
    thr1, thr2 = (0.1, 0.25) if rng.random() < 0.5 else (float(rng.uniform(0.1, 0.6)), float(rng.uniform(0.1, 0.6)))
    sfi = bool(rng.random() < 0.4)
    e = float(rng.uniform(0.15, 0.35)) if rng.random() < 0.25 else 0.0
    detect = bool(rng.random() < 0.7)
    as_pixels = bool(rng.random() < 0.5)
    n = 2 * half
    im = pupils_image(rng, half, R, cen, aa, e)
    im = (im + bg + noise * rng.uniform(-1, 1, im.shape)) * flux
    c.describe(half=half, R=R, cen=cen, aa=aa, bg=bg, noise=noise, flux=flux, thr1=thr1, thr2=thr2, sfi=sfi, obs=e, detect=detect, as_pixels=as_pixels, prec=prec)
    kw = dict(thr1=thr1, thr2=thr2, slopes_from_intensity=sfi, auto_detect_obstruction=detect)
    cal = measure(im, prec, as_pixels, output_tag='pup', **kw)
    p = cal.pupdata
    c.saw('intensity mode' if sfi else 'slopes mode')
    c.saw('obstructed' if e else 'full pupil')
    tx, ty = np.array(cen).T
    cx, cy, rad = (np.asarray(v, dtype=float) for v in (p.cx, p.cy, p.radius))
    d = np.hypot(cx - tx, cy - ty)
    c.check(np.all(d < 0.5), 'pupil:centre', f'{d} pixels from the true centres (A, B, C, D)')
    c.saw('pupil centre error below 0.2 px', int((d < 0.2).sum()))
    if e == 0:
        c.check(np.all(np.abs(rad - R) < 0.75), 'pupil:radius', f'{rad} for {R}')
        c.check(cal.central_obstruction_ratio == 0, 'pupil:obstruction invented', f'{cal.central_obstruction_ratio}')
    if not detect:
        c.check(cal.central_obstruction_ratio == 0, 'pupil:obstruction not requested', f'{cal.central_obstruction_ratio}')
    c.check(tuple(int(k) for k in p.framesize) == (n, n), 'pupil:frame size', str(p.framesize))
    ind = np.asarray(p.ind_pup)
    valid = [k[k >= 0] for k in ind.T]
    allv = np.concatenate(valid)
    if not c.check(ind.ndim == 2 and ind.shape[1] == 4 and allv.max() < n * n and ind.min() >= -1, 'pupil:indices', f'{ind.shape}'):
        return
    c.check(np.unique(allv).size == allv.size, 'pupil:overlap', 'the pupils share pixels')
    c.saw('pixel assigned to a pupil', allv.size)
    if not sfi:
        c.check(all(v.size == ind.shape[0] for v in valid), 'pupil:counts', f'{[v.size for v in valid]}')
        y, x = np.divmod(ind, n)
        dx, dy = x - x[:, :1], y - y[:, :1]
        c.check(np.all(dx == dx[:1]) and np.all(dy == dy[:1]), 'pupil:translation', 'pupils are not translated copies of each other')
    if e == 0:
        yy, xx = np.mgrid[:n, :n]
        rr = rad if sfi else np.full(4, rad.max())
        for k in range(4):
            r = np.hypot(xx - tx[k], yy - ty[k]).ravel()
            slack = 0.5 if sfi else 1.25
            c.check(r[valid[k]].max() <= rr[k] + slack, 'pupil:pixels outside', f'pupil {k}: {r[valid[k]].max()} from the centre, radius {rr[k]}')
            inside = np.flatnonzero(r <= rr[k] - slack)
            c.check(np.isin(inside, valid[k]).all(), 'pupil:pixels missing', f'pupil {k}')
    # masks
    cm = np.zeros(n * n)
    cm[allv] = 1
    c.check(np.array_equal(np.asarray(p.complete_mask()).ravel(), cm), 'pupil:complete mask', f'{int(np.sum(p.complete_mask()))} pixels lit, {allv.size} belong to the pupils')
    sm = np.zeros(n * n)
    sm[valid[0]] = 1
    c.check(np.array_equal(np.asarray(p.single_mask()), sm.reshape(n, n)[:half, half:]), 'pupil:single mask', 'mask of the first pupil')
    # stored
    cal.finalize()
    f = PupData.restore('out/pup.fits')
    c.check(same_pupdata(p, f), 'pupil:restored', 'stored pupils differ')
    # metamorphic: whole-pixel shift of the detector image, flux scale
    kind = sp.pick(rng, ['shift', 'scale', 'none'])
    if kind == 'shift' and not noise and e == 0:
        s = [int(v) for v in rng.integers(-1, 2, 2)]
        q = measure(np.roll(im, s, (0, 1)), prec, as_pixels, **kw).pupdata
        c.saw('shifted image')
        a = np.asarray(q.ind_pup)
        if sfi:
            same = all(np.array_equal(u[u >= 0], v + s[0] * n + s[1]) for u, v in zip(a.T, valid))
        else:
            same = a.shape == ind.shape and np.array_equal(a, ind + s[0] * n + s[1])
        c.check(same or near_edge(cx, cy, rad, n), 'pupil:shifted image', f'the pixel sets did not follow a shift of {s} pixels')
    elif kind == 'scale':
        q = measure(im * 4.0, prec, as_pixels, **kw).pupdata
        c.saw('scaled image')
        c.check(np.array_equal(q.ind_pup, p.ind_pup) and np.array_equal(q.cx, p.cx), 'pupil:scaled image', 'the geometry depends on the flux')
    # slopes measured with the stored geometry
    v = rng.uniform(0.5, 2, 4)          # A top-right, B top-left, C bottom-left, D bottom-right
    px = Pixels(n, n)
    g = np.zeros((n, n))
    if sfi:
        g[:] = rng.uniform(1, 2, (n, n))
    else:
        g[:half, half:], g[:half, :half], g[half:, :half], g[half:, half:] = v
    px.pixels[:] = g
    px.generation_time = 1
    sl = PyrSlopec(pupdata=f, slopes_from_intensity=sfi)
    sl.inputs['in_pixels'].set(px)
    sl.check_ready(1)
    sl.setup()
    sl.trigger()
    sl.post_trigger()
    out = np.asarray(sl.outputs['out_slopes'].slopes, dtype=float)
    if sfi:
        e_ = g.ravel()[allv]
        if c.check(out.shape == e_.shape, 'pupil:intensity slopes size', f'{out.shape} for {e_.shape} pixels'):
            c.near(out, e_ / e_.mean(), 'pupil:intensity slopes', rtol=1e-5)
            m2 = np.zeros(n * n)
            m2[allv] = e_ / e_.mean()
            c.near(np.asarray(sl.outputs['out_slopes'].get2d()).ravel(), m2, 'pupil:intensity map', rtol=1e-5)
            fl = np.zeros(ind.shape[0])
            for u in valid:
                fl[:u.size] += g.ravel()[u]
            c.near(np.asarray(sl.flux_per_subaperture_vector.value, dtype=float), fl, 'pupil:flux', rtol=1e-5)
    else:
        A, B, C, D = v
        m = v.sum()
        k = ind.shape[0]
        if c.check(out.size == 2 * k, 'pupil:slopes size', f'{out.size}'):
            c.near(out[:k], np.full(k, (A + B - C - D) / m), 'pupil:x slopes', atol=1e-5)
            c.near(out[k:], np.full(k, (B + C - A - D) / m), 'pupil:y slopes', atol=1e-5)


def near_edge(cx, cy, rad, n):
    """True when a pixel of a pupil lies so close to the edge of its circle that rounding decides"""
    import numpy as np
    yy, xx = np.mgrid[:n, :n]
    for x, y in zip(cx, cy):
        for r in set(rad):
            if np.abs(np.hypot(xx - x, yy - y) - r).min() < 1e-4:
                return True
    for v in (cx, cy):
        d = np.subtract.outer(v, v)
        if np.any(np.abs(d - np.floor(d) - 0.5) < 1e-4):
            return True
    return False


@CHECK.section('pupils-refused', quick=10, thorough=60)
def pupils_refused(c):
    """missing inputs, non-positive integration times, frames without four pupils are refused"""
    import numpy as np
    from specula.processing_objects.pyr_pupdata_calibrator import PyrPupdataCalibrator
    rng = c.rng
    kind = ['noinput', 'dt', 'dark', 'quadrant', 'threshold'][c.i % 5]
    half, R, cen = geometry(rng)
    im = pupils_image(rng, half, R, cen, False)
    sfi = bool(rng.random() < 0.5)
    c.describe(kind=kind, half=half, R=R, cen=cen, sfi=sfi)
    c.saw(kind)
    if kind == 'noinput':
        cal = PyrPupdataCalibrator(data_dir='out')
        cal.check_ready(0)
        c.raises(ValueError, cal.setup, 'pupil:no input accepted')
    elif kind == 'dt':
        c.raises(ValueError, lambda: PyrPupdataCalibrator(data_dir='out', dt=-float(rng.integers(0, 3))), 'pupil:dt accepted')
    else:
        kw = {}
        if kind == 'dark':
            im[:] = 0
        elif kind == 'quadrant':
            a, b = rng.integers(0, 2, 2)
            im[a * half:(a + 1) * half, b * half:(b + 1) * half] = 0
        else:
            kw['thr1'] = 1.5
        with np.errstate(all='ignore'):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                c.raises(ValueError, lambda: measure(im, c.precision, slopes_from_intensity=sfi, **kw), 'pupil:bad frame accepted')


def reference(im, prec, **kw):
    """pupils of one frame measured by a fresh non-interactive calibrator, None if it refuses"""
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return measure(im, prec, **kw)
        except (ValueError, TypeError):
            return None


@CHECK.section('interactive-pupils', quick=80, thorough=4000)
def interactive_pupils(c):
    """random schedules of frames (some without pupils), parameter changes and saves"""
    import os
    import warnings
    import numpy as np
    from harness import sp
    from specula.data_objects.intensity import Intensity
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.pupdata import PupData
    from specula.processing_objects.pyr_pupdata_calibrator import PyrPupdataCalibrator
    from specula.processing_objects.dynamic_pyr_pupdata_calibrator import DynamicPyrPupdataCalibrator
    rng, prec = c.rng, c.precision
    dynamic = bool(rng.random() < 0.75)
    as_pixels = bool(rng.random() < 0.5)
    sfi = bool(rng.random() < 0.3)
    step = 1_000_000
    dt = int(rng.integers(1, 4)) if rng.random() < 0.6 else None
    half, R, _ = geometry(rng)
    R = min(R, 8.0)
    half = int(2 * R + 8)
    n = 2 * half
    st = dict(thr1=0.1, thr2=0.25, dt=dt, tag='end')
    kw = dict(slopes_from_intensity=sfi, auto_detect_obstruction=bool(rng.random() < 0.5))
    cls = DynamicPyrPupdataCalibrator if dynamic else PyrPupdataCalibrator
    save_on_exit = bool(rng.random() < 0.7)
    cal = cls(data_dir='out', dt=None if dt is None else dt * 1e-3, output_tag='end', save_on_exit=save_on_exit, **kw)
    src = Pixels(n, n) if as_pixels else Intensity(n, n)
    cal.inputs['in_pixels' if as_pixels else 'in_i'].set(src)
    ctl = {}
    if dynamic:
        for k in ('in_thr1', 'in_thr2', 'in_dt', 'in_save', 'in_output_tag'):
            ctl[k] = sp.val(None)
            cal.inputs[k].set(ctl[k])
    nsteps = int(rng.integers(4, 14))
    script, total, last, saved = [], None, None, {}
    pend_frame = None
    ntag = 0
    c.describe(dynamic=dynamic, as_pixels=as_pixels, sfi=sfi, dt=dt, half=half, R=R, nsteps=nsteps, prec=prec, save_on_exit=save_on_exit)
    for k in range(nsteps):
        t = k * step
        ev = []
        frame = k == 0 or not dynamic or rng.random() < 0.75
        if frame:
            cen = [(qx * half + rng.uniform(R + 2, half - 3 - R), qy * half + rng.uniform(R + 2, half - 3 - R)) for qx, qy in [(1, 0), (0, 0), (0, 1), (1, 1)]]
            # integrated frames are the same pupils seen several times (with different fluxes)
            if pend_frame is not None and total is not None:
                cen = pend_frame
            pend_frame = cen
            im = np.round(pupils_image(rng, half, R, cen, False) * int(rng.integers(1, 200)))
            if dynamic and rng.random() < 0.2:
                im[:half, :half] = 0
                ev.append('bad')
            (src.pixels if as_pixels else src.i)[:] = im
            src.generation_time = t
            ev.append('frame')
        if dynamic and rng.random() < 0.5:
            what = sp.pick(rng, list(ctl))
            if what in ('in_thr1', 'in_thr2'):
                v = sp.pick(rng, [0.05, 0.3, '0.2', 0.1, 1.5, 'x', None])
                try:
                    st[what[3:]] = float(v)
                except (TypeError, ValueError):
                    pass
            elif what == 'in_dt':
                v = sp.pick(rng, [0.001, 0.002, '0.003', 0, -1, 'x', None])
                try:
                    if float(v) > 0:
                        st['dt'] = int(round(float(v) * 1e3))
                except (TypeError, ValueError):
                    pass
            else:
                ntag += 1
                v = f'f{ntag}' + sp.pick(rng, ['', '.fits'])
                if what == 'in_output_tag':
                    st['tag'] = v
            sp.setval(ctl[what], v, t)
            ev.append((what, v))
        # reference model
        measured = False
        ran = bool(ev)
        if ran:
            if st['dt'] is None:
                cur = im.copy() if True else None
                total = None
                measured = True
            elif frame:
                total = im.copy() if total is None else total + im
                if k % st['dt'] == 0:
                    cur, total, measured = total, None, True
        exp_ok = None
        if measured:
            ref = reference(cur, prec, thr1=st['thr1'], thr2=st['thr2'], **kw)
            exp_ok = ref is not None
            if exp_ok:
                last = (ref.pupdata, t)
            c.saw('pupil measurement' if exp_ok else 'measurement refused')
        script.append((k, ev, measured, exp_ok))
        # real object
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with sp.quiet():
                cal.check_ready(t)
                if k == 0:
                    cal.setup()
                c.eq(bool(cal.inputs_changed), ran, 'interactive:runs', f'step {k}', script=script)
                if cal.inputs_changed:
                    if measured and not exp_ok and not dynamic:
                        c.raises(ValueError, cal.trigger, 'interactive:bad frame accepted')
                        return
                    cal.trigger()
                    cal.post_trigger()
        for e in ev:
            if isinstance(e, tuple) and e[0] == 'in_save':
                saved[e[1] if e[1].endswith('.fits') else e[1] + '.fits'] = snapshot(cal.pupdata)
                c.saw('interactive save')
        p = cal.pupdata
        if last is None:
            c.check(p.generation_time < 0, 'interactive:refreshed without a measurement', f'step {k}', script=script)
        else:
            c.eq(int(p.generation_time), last[1], 'interactive:generation time', f'step {k}', script=script)
            c.check(same_pupdata(p, last[0]), 'interactive:measurement', f'step {k}: pupils differ from those of the same frames measured alone', script=script)
        if dynamic and ran:
            o = cal.outputs['out_params']
            c.check(o.generation_time == t and o.value['thr1'] == st['thr1'] and o.value['thr2'] == st['thr2']
                    and (o.value['dt'] is None if st['dt'] is None else abs(o.value['dt'] - st['dt'] * 1e-3) < 1e-12), 'interactive:parameters', f'step {k}: {o.value} instead of {st}', script=script)
            if measured:
                c.check((o.value['status'] == 'OK') == exp_ok, 'interactive:status', f'step {k}: {o.value["status"]}', script=script)
    with sp.quiet():
        cal.finalize()
    if save_on_exit:
        saved[st['tag'] if st['tag'].endswith('.fits') else st['tag'] + '.fits'] = cal.pupdata
    files = sorted(os.listdir('out')) if os.path.isdir('out') else []
    if c.check(files == sorted(saved), 'interactive:files', f'{files} instead of {sorted(saved)}', script=script):
        for f, p in saved.items():
            if p.generation_time >= 0:
                c.check(same_pupdata(PupData.restore('out/' + f), p), 'interactive:stored', f, script=script)


@CHECK.section('interactive-dark', quick=120, thorough=6000)
def interactive_dark(c):
    """the dark frame is the mean of exactly the requested frames and is subtracted from every frame"""
    import os
    import numpy as np
    from harness import sp
    from specula.data_objects.pixels import Pixels
    from specula.processing_objects.dynamic_dark_calibrator import DynamicDarkCalibrator
    rng, prec = c.rng, c.precision
    w, h = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    bits, signed = sp.pick(rng, [8, 16, 32]), int(rng.integers(0, 2))
    nf = int(rng.integers(1, 6))
    c.describe(w=w, h=h, bits=bits, signed=signed, nf=nf, prec=prec)
    cal = DynamicDarkCalibrator(data_dir='out', nframes=nf)
    src = Pixels(w, h, bits=bits, signed=signed)
    cal.inputs['in_pixels'].set(src)
    ctl = {k: sp.val(None) for k in ('in_trigger', 'in_nframes', 'in_load', 'in_save', 'in_reset')}
    for k, v in ctl.items():
        if rng.random() < 0.9:
            cal.inputs[k].set(v)
    on = [k for k in ctl if cal.inputs[k].output_ref() is not None] if hasattr(cal.inputs['in_trigger'], 'output_ref') else None
    if on is None:
        on = list(ctl)
        for k, v in ctl.items():
            cal.inputs[k].set(v)
    dark = np.zeros((h, w))
    acc, left, tot, N = None, 0, 0, nf
    dark_t = -1
    files, nfile = {}, 0
    script = []
    tol = dict(rtol=1e-5 if prec else 1e-12, atol=1e-3 if prec else 1e-9)
    for k in range(int(rng.integers(5, 25))):
        t = k * 1_000_000
        ev = []
        frame = k == 0 or rng.random() < 0.8
        if frame:
            im = rng.integers(0, 100, (h, w)).astype(float)
            src.pixels[:] = im
            src.generation_time = t
            ev.append('frame')
        for name in on:
            if rng.random() >= (0.25 if name == 'in_trigger' else 0.12):
                continue
            v = True
            if name == 'in_nframes':
                v = sp.pick(rng, [1, 2, 3, '4', 0, -2, 'x', None])
            elif name == 'in_save':
                nfile += 1
                v = f'd{nfile}' + sp.pick(rng, ['', '.fits'])
            elif name == 'in_load':
                v = sp.pick(rng, sorted(files) + ['missing'])
            sp.setval(ctl[name], v, t)
            ev.append((name, v))
        d = dict(e for e in ev if isinstance(e, tuple))
        script.append((k, ev))
        # model
        if 'in_reset' in d:
            dark = np.zeros((h, w))
        if 'in_nframes' in d:
            try:
                if int(d['in_nframes']) > 0:
                    N = int(d['in_nframes'])
            except (TypeError, ValueError):
                pass
        if 'in_trigger' in d:
            acc, left, tot = np.zeros((h, w)), N, N
            c.saw('dark acquisition started')
        if 'in_load' in d and d['in_load'] != 'missing':
            dark = files[d['in_load']]
            dark_t = t
            c.saw('dark loaded')
        sub = im - dark
        if left and frame:
            acc = acc + im
            left -= 1
            if left == 0:
                dark = acc / tot
                dark_t = t
                c.saw('dark acquired')
        with sp.quiet():
            cal.check_ready(t)
            if k == 0:
                cal.setup()
            c.eq(bool(cal.inputs_changed), bool(ev), 'dark:runs', f'step {k}', script=script)
            if cal.inputs_changed:
                cal.trigger()
                cal.post_trigger()
        if 'in_save' in d:
            f = d['in_save'][:-5] if d['in_save'].endswith('.fits') else d['in_save']
            files[f] = dark
            c.check(os.path.exists(f'out/{f}.fits'), 'dark:file', f, script=script)
            c.saw('dark saved')
        c.near(np.asarray(cal.outputs['out_darkframe'].pixels), dark, 'dark:frame', **tol, msg=f'step {k}: {script}')
        c.eq(int(cal.outputs['out_darkframe'].generation_time), dark_t, 'dark:generation time', f'step {k}', script=script)
        if ev:
            c.near(np.asarray(cal.outputs['out_subtracted_pixels'].pixels), sub, 'dark:subtracted', **tol, msg=f'step {k}: {script}')
            c.eq(int(cal.outputs['out_subtracted_pixels'].generation_time), t, 'dark:subtracted time', f'step {k}', script=script)
    for f, v in files.items():
        c.near(np.asarray(Pixels.restore(f'out/{f}.fits').pixels, dtype=float), v, 'dark:stored', **tol, msg=f)
