"""C16: slopes are the normalised centroid signals of the assigned pixels."""
from harness.vf import CheckDef
CHECK = CheckDef('C16', rule=(
    'sh: Shack-Hartmann slope computers with random sub-aperture sets, thresholds, weightings (exponent, window, gaussian, quad-cell, integrated-pixel weights, time-dependent radius), references, '
    'filters and interleaving against a loop-per-subaperture reference over several frames. pyr: pyramid / double-roof / intensity variants, zernike and curvature computers likewise. '
    'meta: transposition, mirroring, flux scaling, perturbation of unassigned pixels, 2-D mapping. ciao: interferogram with known phase. Non-trivial: at least one frame with light compared; '
    'distinct by configuration.'),
    assumptions=['pyramid pixels are handled in single precision by design; sub-aperture pixels are listed in row-major order as the calibrator does'])


def pixels(nx, ny, v, t):
    from specula.data_objects.pixels import Pixels
    p = Pixels(nx, ny, target_device_idx=-1)
    p.pixels[...] = v
    p.generation_time = t
    return p


def sh_geometry(rng, square_frame=False):
    """random set of non-overlapping sub-apertures; returns idxs, display_map, nx, ny, frame shape, block origins"""
    import numpy as np
    n = int(rng.integers(2, 9))
    gy, gx = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    if square_frame:
        gx = gy
    oy, ox = int(rng.integers(0, 4)), int(rng.integers(0, 4))
    H, W = gy * n + oy + int(rng.integers(0, 3)), gx * n + ox + int(rng.integers(0, 3))
    if square_frame:
        H = W = max(H, W)
        ox = oy
    cells = [(r, k) for r in range(gy) for k in range(gx)]
    keep = [q for q in cells if rng.random() < 0.7] or [cells[0]]
    if rng.random() < 0.3:
        rng.shuffle(keep)
        keep = [tuple(int(z) for z in q) for q in keep]
    idx = np.array([[(oy + r * n + i) * W + ox + k * n + j for i in range(n) for j in range(n)] for r, k in keep])
    dm = np.array([r * gx + k for r, k in keep])
    return n, idx, dm, gx, gy, (H, W), [(oy + r * n, ox + k * n) for r, k in keep], keep


def sh_weights(n, exp, rad, windowing, quad):
    import numpy as np
    X, Y, M = np.zeros((n, n)), np.zeros((n, n)), np.ones((n, n))
    for i in range(n):
        for j in range(n):
            x, y = (j - (n - 1) / 2) / (n / 2), (i - (n - 1) / 2) / (n / 2)
            r2 = x * x + y * y
            if quad:
                x, y = (1.0 if x > 0 else -1.0), (1.0 if y > 0 else -1.0)
            else:
                x, y = np.sign(x) * abs(x)**exp, np.sign(y) * abs(y)**exp
            if rad:
                if windowing:
                    m = 1.0 if r2 < (2 * rad / n)**2 else 0.0
                else:
                    s = 2 * rad / (2 * np.sqrt(2 * np.log(2)))
                    g = lambda d: np.exp(-0.5 * (d / s)**2)
                    top = g((n - 1) / 2 - round((n - 1) / 2 - 1e-9))**2 if n % 2 == 0 else 1.0
                    m = g(i - (n - 1) / 2) * g(j - (n - 1) / 2) / top
                    if m < 1e-6:
                        m = 0.0
                M[i, j] = m
            X[i, j], Y[i, j] = x * M[i, j], y * M[i, j]
    return X, Y, M


def sh_ref(F, org, n, wts, thr, pixw=None):
    import numpy as np
    X, Y, M = wts
    sx, sy, fl, tot = [], [], [], []
    P = []
    for k, (r, q) in enumerate(org):
        p = F[r:r + n, q:q + n].astype(float)
        if pixw is not None:
            p = p * pixw[k]
        fl.append(p.sum())
        p = np.maximum(p - max(thr, 0), 0)
        P.append(p)
        tot.append((p * M).sum())
    m = np.mean(tot)
    for p, t in zip(P, tot):
        ok = t > m * 1e-3
        sx.append((p * X).sum() / t if ok else 0.0)
        sy.append((p * Y).sum() / t if ok else 0.0)
    near = any(abs(t - m * 1e-3) < 1e-5 * m for t in tot)
    return np.array(sx), np.array(sy), np.array(fl), near


def join(sx, sy, il):
    import numpy as np
    if il:
        o = np.empty(len(sx) * 2)
        o[0::2], o[1::2] = sx, sy
        return o
    return np.concatenate([sx, sy])


def frame(rng, shape):
    import numpy as np
    kind = rng.integers(5)
    v = rng.random(shape) * 10 ** rng.uniform(0, 4)
    if kind == 1:
        v = v * (rng.random(shape) < 0.3)
    if kind == 2:
        v = v - v.mean() * 0.4          # detectors with readout noise give negative pixels
    if kind == 3:
        v = np.round(v)
    if kind == 4 and rng.random() < 0.3:
        v = np.zeros(shape)
    return v


@CHECK.section('sh', quick=240, thorough=8000, precisions=(0, 1), chunk=60)
def sh(c):
    import numpy as np
    from harness import sp
    from specula.data_objects.subap_data import SubapData
    from specula.data_objects.slopes import Slopes
    from specula.data_objects.intmat import Intmat
    from specula.data_objects.recmat import Recmat
    from specula.processing_objects.sh_slopec import ShSlopec
    rng = c.rng
    n, idx, dm, gx, gy, shape, org, keep = sh_geometry(rng)
    ns = len(org)
    mode = str(sp.pick(rng, ['cog', 'cog', 'thr', 'exp', 'window', 'wcog', 'quad', 'intw', 'vec', 'wcog+thr']))
    il = bool(rng.integers(2))
    thr = float(rng.uniform(0, 200)) if 'thr' in mode or rng.random() < 0.2 else -1
    exp = float(rng.uniform(0.5, 2)) if mode == 'exp' else 1.0
    rad = float(rng.uniform(0.6, 1.2) * n / 2) if mode in ('window', 'wcog', 'wcog+thr', 'intw') and (mode != 'intw' or rng.random() < 0.3) else 0.0
    win = mode == 'window'
    kw = {}
    T = 1000000
    wdt = 0
    if mode == 'intw':
        wdt = int(rng.integers(1, 4))
        kw['weight_int_pixel_dt'] = wdt * 0.001
    wthr = None
    if wdt and rng.random() < 0.4:
        wthr = float(10 ** rng.uniform(1, 4))
        kw.update(window_int_pixel=True, window_int_threshold=wthr)
    vec = None
    if mode == 'vec':
        vec = [[float(rng.uniform(0.5, 1.5) * n / 2), round(x, 6)] for x in sorted(rng.uniform(0, 0.006, int(rng.integers(1, 4))))]
        kw['vecWeiPixRadT'] = vec
    sn = None
    if rng.random() < 0.4:
        # (null slopes may have been recorded with the other ordering)
        sn = Slopes(slopes=rng.normal(size=2 * ns) * 0.1, interleave=bool(rng.integers(2)), target_device_idx=-1)
    with sp.quiet():
        sd = SubapData(idxs=idx, display_map=dm, nx=gx, ny=gy, target_device_idx=-1)
        s = ShSlopec(sd, sn=sn, thr_value=thr, exp_weight=exp, weightedPixRad=rad, windowing=win, interleave=il, target_device_idx=-1, **kw)
    if mode == 'quad':
        s.quadcell_mode = True
        s.set_xy_weights()
    filt = None
    if rng.random() < 0.25:
        nm = int(rng.integers(1, 5))
        im, rm = rng.normal(size=(2 * ns, nm)), rng.normal(size=(nm, 2 * ns))
        filt = (im, rm)
        if rng.random() < 0.5:
            with sp.quiet():
                s = ShSlopec(sd, sn=sn, thr_value=thr, exp_weight=exp, weightedPixRad=rad, windowing=win, interleave=il, target_device_idx=-1,
                             filtmat=np.array([im, rm.T], dtype=s.dtype), **kw)
            if mode == 'quad':
                s.quadcell_mode = True
                s.set_xy_weights()
        else:
            s.filt_intmat, s.filt_recmat = Intmat(im.astype(s.dtype), target_device_idx=-1), Recmat(rm.astype(s.dtype), target_device_idx=-1)
    c.describe(mode=mode, n=n, ns=ns, shape=str(shape), thr=thr, exp=exp, rad=rad, il=il, sn=sn is not None, filt=filt is not None, wdt=wdt, keep=str(keep))
    H, W = shape
    px = pixels(W, H, 0, 0)
    s.inputs['in_pixels'].set(px)
    s.setup()
    pixw = np.ones((ns, n, n))
    acc, fresh, edge = np.zeros(shape), False, False
    rt = 1e-9 if c.precision == 0 else 3e-4
    for k in range(int(rng.integers(2, 8))):
        F = frame(rng, shape)
        px.pixels[...] = F
        F = px.pixels.copy()
        px.generation_time = k * T
        sp.step(s, k * T)
        c.check(np.array_equal(px.pixels, F), 'input-changed')
        if wdt:
            acc = np.array(F, dtype=float) if fresh else acc + F
            fresh = False
            if k % wdt == 0 and k >= wdt:
                fresh = True
                blk = [acc[r:r + n, q:q + n] for r, q in org]
                for j, b in enumerate(blk):
                    b = b - b.min()
                    pixw[j] = b / b.max() if b.max() > 0 else 1.0
                    if wthr is not None and b.max() > 0:
                        # a pixel is kept when it, or the one opposite to it, is bright enough
                        pixw[j] = (b >= wthr) | (b[::-1, ::-1] >= wthr)
                        edge = edge or bool((np.abs(b - wthr) < 1e-4 * np.abs(blk[j]).max()).any())
                c.saw('windows-from-light' if wthr is not None else 'weights-from-light')
        r = rad
        if vec:
            for rr, tt in vec:
                if k * 0.001 > tt:
                    r = rr
        w = sh_weights(n, exp, r, win, mode == 'quad')
        sx, sy, fl, near = sh_ref(F, org, n, w, thr, pixw if wdt else None)
        if near or (edge and c.precision):
            continue
        want = join(sx, sy, il)
        if sn is not None:
            want = want - join(np.array(sn.slopes[sn.indx()]), np.array(sn.slopes[sn.indy()]), il)
        if filt is not None:
            want = want - filt[0] @ (filt[1] @ want)
        out = s.outputs['out_slopes']
        c.near(out.slopes, want, f'slopes:{mode}', rtol=rt, atol=rt * max(1.0, np.abs(want).max()))
        c.near(s.outputs['out_flux_per_subaperture'].value, fl, 'flux', rtol=rt, atol=rt * np.abs(fl).max())
        c.near(s.outputs['out_total_counts'].value, [fl.sum()], 'total', rtol=rt, atol=rt * np.abs(fl).sum())
        c.near(s.outputs['out_subap_counts'].value, [fl.mean()], 'mean-counts', rtol=rt, atol=rt * np.abs(fl).max())
        for o in ('out_slopes', 'out_flux_per_subaperture', 'out_total_counts', 'out_subap_counts'):
            c.check(s.outputs[o].generation_time == k * T, f'time:{o}')
        c.saw('frames')
        # two-dimensional mapping
        g = out.get2d()
        m0, m1 = np.zeros(gx * gy), np.zeros(gx * gy)
        m0[dm], m1[dm] = out.xslopes, out.yslopes
        if ns * 2 != ns:
            c.check(np.asarray(g).shape == (2, gx, gy) and np.array_equal(g[0].ravel(), m0) and np.array_equal(g[1].ravel(), m1), 'map2d', 'two dimensional map differs from the sub-aperture positions')


@CHECK.section('pyr', quick=240, thorough=8000, precisions=(0, 1), chunk=60)
def pyr(c):
    import numpy as np
    from harness import sp
    from specula.data_objects.pupdata import PupData
    from specula.data_objects.slopes import Slopes
    from specula.processing_objects.pyr_slopec import PyrSlopec
    from specula.processing_objects.double_roof_slopec import DoubleRoofSlopec
    rng = c.rng
    half = int(rng.integers(4, 9))
    N = 2 * half
    m = rng.random((half, half)) < 0.6
    m[1, 1] = True
    rr, cc = np.where(m)
    quad = [(0, half), (0, 0), (half, 0), (half, half)]      # A B C D
    if rng.random() < 0.3:
        q = [quad[0]] + [quad[1:][int(j)] for j in rng.permutation(3)]
        quad = q
    ind = np.stack([(rr + a) * N + cc + b for a, b in quad], axis=1)
    ns = len(rr)
    kind = str(sp.pick(rng, ['pyr', 'pyr', 'roof', 'intensity']))
    norm = float(rng.uniform(0.5, 1000)) if rng.random() < 0.3 and kind != 'intensity' else None
    thr = float(rng.uniform(0, 100)) if rng.random() < 0.5 else 0
    il = bool(rng.integers(2)) and kind != 'intensity'
    sn = Slopes(slopes=rng.normal(size=(4 if kind == 'intensity' else 2) * ns) * 0.1, interleave=il if kind == 'intensity' else bool(rng.integers(2)), target_device_idx=-1) if rng.random() < 0.4 else None
    pd = PupData(ind_pup=ind, radius=np.ones(4), cx=np.ones(4), cy=np.ones(4), framesize=[N, N], target_device_idx=-1)
    cls = DoubleRoofSlopec if kind == 'roof' else PyrSlopec
    s = cls(pd, sn=sn, norm_factor=norm, thr_value=thr, slopes_from_intensity=kind == 'intensity', interleave=il, target_device_idx=-1)
    px = pixels(N, N, 0, 0)
    s.inputs['in_pixels'].set(px)
    s.setup()
    c.describe(kind=kind, ns=ns, N=N, norm=norm, thr=thr, il=il, sn=sn is not None)
    T = 1000000
    for k in range(int(rng.integers(2, 6))):
        F = frame(rng, (N, N))
        px.pixels[...] = F
        F = px.pixels.copy()
        px.generation_time = k * T
        sp.step(s, k * T)
        c.check(np.array_equal(px.pixels, F), 'input-changed')
        f = np.maximum(F.astype(float).ravel() - thr, 0)
        A, B, C, D = [np.array([f[i] for i in ind[:, j]]) for j in range(4)]
        fl = A + B + C + D
        tot = fl.sum()
        big = max(np.abs(F).max(), thr)     # rounding scale of the threshold subtraction
        if 0 < tot < 1e-2 * big * ns:
            c.saw('nearly-dark-frame-skipped')
            continue
        if kind == 'intensity':
            want = np.concatenate([A, B, C, D]) / (tot / (4 * ns)) if tot > 0 else np.zeros(4 * ns)
        else:
            den = norm if norm is not None else tot / ns
            sx, sy = ((A - B), (D - C)) if kind == 'roof' else (A + B - C - D, B + C - A - D)
            want = join(sx / den, sy / den, il) if den > 0 else np.zeros(2 * ns)
        if sn is not None:
            want = want - (sn.slopes if kind == 'intensity' else join(np.array(sn.slopes[sn.indx()]), np.array(sn.slopes[sn.indy()]), il))
        out = s.outputs['out_slopes']
        sc = np.abs(fl).max() / (norm if norm else max(tot / ns, 1e-30)) if tot > 0 else 1.0
        c.near(out.slopes, want, f'slopes:{kind}', rtol=2e-5, atol=3e-5 * max(1.0, sc))
        c.near(s.outputs['out_flux_per_subaperture'].value, fl, f'flux:{kind}', rtol=1e-5, atol=2e-6 * big)
        c.near(s.outputs['out_total_counts'].value, [tot], f'total:{kind}', rtol=1e-5, atol=2e-6 * big * ns)
        c.near(s.outputs['out_subap_counts'].value, [tot / ns], f'mean-counts:{kind}', rtol=1e-5, atol=2e-6 * big)
        for o in ('out_slopes', 'out_flux_per_subaperture', 'out_total_counts', 'out_subap_counts', 'out_pupdata'):
            c.check(s.outputs[o].generation_time == k * T, f'time:{o}')
        c.saw('frames')
        g = np.asarray(out.get2d())
        if kind == 'intensity':
            w = np.zeros(N * N)
            for j in range(4):
                w[ind[:, j]] = out.slopes[j * ns:(j + 1) * ns]
            c.check(g.shape == (N, N) and np.array_equal(g.ravel(), w), 'map2d:intensity', 'intensity map')
        else:
            w0, w1 = np.zeros((half, half)), np.zeros((half, half))
            w0[rr, cc], w1[rr, cc] = out.xslopes, out.yslopes
            c.check(g.shape == (2, half, half) and np.array_equal(g[0], w0) and np.array_equal(g[1], w1), f'map2d:{kind}', 'slopes are not mapped to their own sub-aperture')


@CHECK.section('other', quick=120, thorough=4000, precisions=(0, 1), chunk=60)
def other(c):
    """zernike sensor and curvature computers"""
    import numpy as np
    from harness import sp
    from specula.data_objects.slopes import Slopes
    from specula.processing_objects.zwfs_slopec import ZwfsSlopec
    from specula.processing_objects.cur_wfs_slopec import CurWfsSlopec
    rng = c.rng
    N = int(rng.integers(6, 20))
    d = float(rng.uniform(0.5, 0.95) * N)
    obs = float(rng.uniform(0.1, 0.4)) if rng.random() < 0.5 else None
    kind = str(sp.pick(rng, ['zwfs', 'cur']))
    if kind == 'cur':
        d = int(d)
        obs = None
    yy, xx = np.mgrid[:N, :N]
    r = np.hypot(xx - (N - 1) / 2, yy - (N - 1) / 2)
    if np.any(np.abs(r - d / 2) < 1e-6) or (obs and np.any(np.abs(r - d / 2 * obs) < 1e-6)):
        c.skip()
        return
    mask = (r < d / 2) & (r >= d / 2 * (obs or 0))
    idx = np.where(mask.ravel())[0]
    ns = len(idx)
    sn = Slopes(slopes=rng.normal(size=ns) * 0.1, target_device_idx=-1) if rng.random() < 0.4 else None
    thr = float(rng.uniform(0, 20)) if rng.random() < 0.4 else 0.0
    c.describe(kind=kind, N=N, d=d, obs=obs, sn=sn is not None, thr=thr)
    if kind == 'zwfs':
        s = ZwfsSlopec(d, N, obsratio=obs, sn=sn, thr_value=thr, target_device_idx=-1)
    else:
        s = CurWfsSlopec(d, (N, N), sn=sn, target_device_idx=-1)
    P = [pixels(N, N, 0, 0), pixels(N, N, 0, 0)]
    for nm, p in zip(['in_pixels'] if kind == 'zwfs' else ['in_pixels1', 'in_pixels2'], P):
        s.inputs[nm].set(p)
    s.setup()
    T = 1000000
    for k in range(3):
        Fs = []
        for p in P:
            p.pixels[...] = rng.random((N, N)) * 10 ** rng.uniform(0, 4) * (rng.random((N, N)) < 0.8) + 0.01 * (kind == 'zwfs')
            p.generation_time = k * T
            Fs.append(p.pixels.copy())
        sp.step(s, k * T)
        c.check(all(np.array_equal(p.pixels, f) for p, f in zip(P, Fs)), 'input-changed')
        a, b = [f.astype(float).ravel()[idx] for f in Fs]
        if kind == 'zwfs':
            a = a - thr
            if abs(a.mean()) < 0.02 * np.abs(a).max():
                continue
            want, fl = a / a.mean(), a
        else:
            fl = a + b
            want = np.where(fl > 0, (a - b) / np.where(fl > 0, fl, 1), 0)
        if sn is not None:
            want = want - sn.slopes
        out = s.outputs['out_slopes']
        c.near(out.slopes, want, f'slopes:{kind}', rtol=1e-4, atol=1e-4 * max(1, np.abs(want).max()))
        c.near(s.outputs['out_flux_per_subaperture'].value, fl, f'flux:{kind}', rtol=1e-5, atol=1e-5 * (np.abs(fl).max() + thr))
        c.near(s.outputs['out_total_counts'].value, [fl.sum()], f'total:{kind}', rtol=1e-5, atol=1e-5 * (np.abs(fl).sum() + thr * ns))
        c.near(s.outputs['out_subap_counts'].value, [fl.mean()], f'mean-counts:{kind}', rtol=1e-5, atol=1e-5 * (np.abs(fl).max() + thr))
        c.check(out.generation_time == k * T, f'time:{kind}')
        c.saw('frames')


@CHECK.section('meta', quick=160, thorough=5000, precisions=(0, 1), chunk=40)
def meta(c):
    """transposition, mirrors, flux, unassigned pixels; no reference formula involved"""
    import numpy as np
    from harness import sp
    from specula.data_objects.subap_data import SubapData
    from specula.processing_objects.sh_slopec import ShSlopec
    rng = c.rng
    n, idx, dm, gx, gy, shape, org, keep = sh_geometry(rng, square_frame=True)
    H = shape[0]
    exp = float(sp.pick(rng, [1.0, 1.5]))
    rad = float(sp.pick(rng, [0.0, n / 3]))
    win = bool(rng.integers(2))
    T = 1000000

    def run(F, idx):
        with sp.quiet():
            s = ShSlopec(SubapData(idxs=idx, display_map=dm, nx=gx, ny=gy, target_device_idx=-1), exp_weight=exp, weightedPixRad=rad, windowing=win, target_device_idx=-1)
        px = pixels(F.shape[1], F.shape[0], F, 0)
        s.inputs['in_pixels'].set(px)
        s.setup()
        sp.step(s, 0)
        return s.slopes.xslopes.copy(), s.slopes.yslopes.copy()

    def mapped(fn):
        """indices of the same sub-apertures in the transformed frame (row-major order inside each)"""
        pos = fn(np.arange(H * H).reshape(H, H))
        where = np.empty(H * H, dtype=int)
        where[pos.ravel()] = np.arange(H * H)
        return np.sort(where[idx], axis=1)
    F = rng.random((H, H)) * 100 + 1
    c.describe(n=n, ns=len(org), H=H, exp=exp, rad=rad, win=win, keep=str(keep))
    x, y = run(F, idx)
    rt = 1e-10 if c.precision == 0 else 2e-4
    k = dict(rtol=rt, atol=rt)
    a, b = run(F.T, mapped(lambda q: q.T))
    c.near(a, y, 'transpose-x', **k)
    c.near(b, x, 'transpose-y', **k)
    a, b = run(F[:, ::-1], mapped(lambda q: q[:, ::-1]))
    c.near(a, -x, 'mirror-x', **k)
    c.near(b, y, 'mirror-x-y', **k)
    a, b = run(F[::-1], mapped(lambda q: q[::-1]))
    c.near(a, x, 'mirror-y-x', **k)
    c.near(b, -y, 'mirror-y', **k)
    a, b = run(F * 37.5, idx)
    c.near(a, x, 'flux-x', **k)
    c.near(b, y, 'flux-y', **k)
    G = F.copy().ravel()
    others = np.setdiff1d(np.arange(H * H), idx.ravel())
    G[others] = rng.random(len(others)) * 1e4
    a, b = run(G.reshape(H, H), idx)
    c.check(np.array_equal(a, x) and np.array_equal(b, y), 'unassigned-pixels', 'pixels outside the sub-apertures change the slopes')
    # one sub-aperture alone is changed
    j = int(rng.integers(len(org)))
    G = F.copy().ravel()
    G[idx[j]] = rng.permutation(G[idx[j]])
    a, b = run(G.reshape(H, H), idx)
    o = np.arange(len(org)) != j
    c.near(a[o], x[o], 'cross-talk', **k)
    c.near(b[o], y[o], 'cross-talk', **k)
    # a spot in one pixel gives that pixel's position
    if not rad and exp == 1.0:
        G = np.zeros((H, H))
        pos = rng.integers(0, n, (len(org), 2))
        for (r, q), (i, l) in zip(org, pos):
            G[r + i, q + l] = rng.uniform(10, 100)
        a, b = run(G, idx)
        c.near(a, (pos[:, 1] - (n - 1) / 2) / (n / 2), 'spot-x', **k)
        c.near(b, (pos[:, 0] - (n - 1) / 2) / (n / 2), 'spot-y', **k)
    c.saw('frames', 7)
    # pyramid: flux scaling and unassigned pixels
    from specula.data_objects.pupdata import PupData
    from specula.processing_objects.pyr_slopec import PyrSlopec
    half = 5
    m = rng.random((half, half)) < 0.6
    m[0, 0] = True
    rr, cc = np.where(m)
    ind = np.stack([(rr + a) * 10 + cc + b for a, b in [(0, 5), (0, 0), (5, 0), (5, 5)]], axis=1)

    def prun(F, ind):
        s = PyrSlopec(PupData(ind_pup=ind, radius=np.ones(4), cx=np.ones(4), cy=np.ones(4), framesize=[10, 10], target_device_idx=-1), target_device_idx=-1)
        px = pixels(10, 10, F, 0)
        s.inputs['in_pixels'].set(px)
        s.setup()
        sp.step(s, 0)
        return s.slopes.xslopes.astype(float), s.slopes.yslopes.astype(float)
    F = rng.random((10, 10)) * 100 + 1
    x, y = prun(F, ind)
    kk = dict(rtol=1e-4, atol=2e-5)
    a, b = prun(F * 1234.5, ind)
    c.near(a, x, 'pyr-flux', **kk)
    c.near(b, y, 'pyr-flux', **kk)
    G = F.copy().ravel()
    o = np.setdiff1d(np.arange(100), ind.ravel())
    G[o] = 1e6 * rng.random(len(o))
    a, b = prun(G.reshape(10, 10), ind)
    c.check(np.array_equal(a, x) and np.array_equal(b, y), 'pyr-unassigned', 'pixels outside the pupils change the slopes')
    # exchanging left and right pupils negates y signal only, exchanging top and bottom x only
    a, b = prun(F, ind[:, [1, 0, 3, 2]])
    c.near(a, x, 'pyr-swap-lr', **kk)
    c.near(b, -y, 'pyr-swap-lr', **kk)
    a, b = prun(F, ind[:, [3, 2, 1, 0]])
    c.near(a, -x, 'pyr-swap-tb', **kk)
    c.near(b, y, 'pyr-swap-tb', **kk)
    c.saw('frames', 5)


@CHECK.section('ciao', quick=32, thorough=800, precisions=(0, 1), chunk=16)
def ciao(c):
    import numpy as np
    from harness import sp
    from specula.data_objects.pupilstop import Pupilstop
    from specula.data_objects.slopes import Slopes
    from specula.processing_objects.ciao_ciao_slopec import CiaoCiaoSlopec
    rng = c.rng
    ny, nx = int(rng.integers(28, 45)), int(rng.integers(28, 45))
    wl = float(rng.uniform(500, 2500))
    fy, fx = int(rng.integers(-9, 10)), int(rng.integers(7, 10))
    if rng.random() < 0.5:
        fx, fy = fy, fx
    y, x = np.mgrid[:ny, :nx]
    amp, off = float(rng.uniform(0.1, 0.5)), float(rng.uniform(-1, 1))
    phi = amp * np.cos(2 * np.pi * x / nx + rng.uniform(0, 6)) * np.sin(2 * np.pi * y / ny + rng.uniform(0, 6)) + off
    flux = float(10 ** rng.uniform(0, 4))
    I = flux * (1 + np.cos(2 * np.pi * (fx * x / nx + fy * y / ny) + phi))
    mask = None
    if nx == ny and rng.random() < 0.7:
        mask = (np.hypot(x - nx / 2, y - ny / 2) < 0.4 * nx).astype(float)
        ps = Pupilstop(sp.simul_params(pixel_pupil=nx, pixel_pitch=0.1), input_mask=mask, target_device_idx=-1)
    sn = Slopes(slopes=rng.normal(size=nx * ny), target_device_idx=-1) if rng.random() < 0.3 else None
    s = CiaoCiaoSlopec(wl, nx // 2 + fx, ny // 2 + fy, 3.0, ps if mask is not None else None, unwrap=bool(rng.integers(2)), sn=sn, target_device_idx=-1)
    px = pixels(nx, ny, I, 0)
    s.inputs['in_pixels'].set(px)
    s.setup()
    sp.step(s, 0)
    c.describe(nx=nx, ny=ny, fx=fx, fy=fy, wl=wl, mask=mask is not None, sn=sn is not None)
    want = phi * wl / (2 * np.pi)
    if mask is not None:
        want = want * mask
    got = s.slopes.slopes.copy()
    if sn is not None:
        got = got + sn.slopes
    c.near(got.reshape(ny, nx), want, 'opd', rtol=0, atol=0.05 * wl / (2 * np.pi))
    m = I[mask > 0.5].mean() if mask is not None else I.mean()
    c.near(s.outputs['out_flux_per_subaperture'].value, [m], 'flux', rtol=1e-4)
    g = s.slopes.get2d()
    c.check(np.asarray(g).shape == (ny, nx) and np.array_equal(np.asarray(g).ravel(), s.slopes.slopes), 'map2d')
    c.saw('frames')
