"""C21: modal bases, masks, grids and resampling keep their defining invariants."""
from harness.vf import CheckDef
CHECK = CheckDef('C21', rule=(
    'Every public function is run on random sizes, geometries and fields and its output is judged by an independent definition: Zernike maps by the factorial formula (plus finite differences for derivatives), '
    'zonal/petal/Karhunen-Loeve bases by partition, orthogonality, restriction and reconstruction, masks and grids by exact membership, rebinning by overlap-area matrices, interpolation by affine fields and flips, '
    'radial profiles and shift ramps by brute force. Non-trivial: the output is not constant / not empty; distinct by configuration.'),
    assumptions=['pixel-centre conventions of the mask and Zernike grids are those documented in make_xy and cartesian_coordinates',
                 'thin-plate influence functions are judged at actuators that lie on the pixel grid',
                 'Karhunen-Loeve commands are judged up to piston, to the accuracy of the documented pseudo-inverse (1 percent to 5 percent)',
                 'special_last_petal and piston offsets of mode-to-command matrices are not judged',
                 'toccd is judged on fields of positive total'])


def noll(j):
    n = 0
    j1 = j - 1
    while j1 > n:
        n += 1
        j1 -= n
    m = (-1) ** j * ((n % 2) + 2 * int((j1 + ((n + 1) % 2)) / 2.0))
    return n, m


def zern(j, x, y):
    import numpy as np
    from math import factorial as f
    n, m = noll(j)
    r = np.hypot(x, y)
    th = np.arctan2(y, x)
    am = abs(m)
    R = sum((-1) ** s * f(n - s) / (f(s) * f((n + am) // 2 - s) * f((n - am) // 2 - s)) * r ** (n - 2 * s) for s in range((n - am) // 2 + 1))
    if m == 0:
        return np.sqrt(n + 1.) * R
    return np.sqrt(2. * (n + 1)) * R * (np.cos(am * th) if j % 2 == 0 else np.sin(am * th))


def q(fn, *a, **k):
    from harness import sp
    with sp.quiet():
        return fn(*a, **k)


def dt(c):
    import numpy as np
    return np.float64 if c.precision == 0 else np.float32


def tol(c):
    return 1e-10 if c.precision == 0 else 2e-4


def disc(n, obs, dia, xc=0., yc=0., square=False):
    """Exact membership of pixel centres; also returns the pixels too close to an edge to tell."""
    import numpy as np
    v = (np.arange(n) + 0.5 - n / 2) / (n / 2)
    X, Y = np.meshgrid(v - xc, v - yc)
    if square:
        r = np.maximum(abs(X), abs(Y))
        ins = (r <= dia) & (r >= dia * obs)
    else:
        r = np.hypot(X, Y)
        ins = (r < dia) & (r >= dia * obs)
    return ins, (abs(r - dia) < 1e-7) | (abs(r - dia * obs) < 1e-7)


@CHECK.section('zernike', quick=40, thorough=500, precisions=(0, 1))
def zernike(c):
    import numpy as np
    from specula.lib.zernike_generator import ZernikeGenerator
    from specula.lib.mask import CircularMask
    rng = c.rng
    d = dt(c)
    mode = ['int', 'real', 'mask'][c.i % 3]
    if mode == 'int':
        n = int(rng.integers(4, 90)); rad, shape, cen = n / 2, (n, n), (n / 2, n / 2); arg = n
    elif mode == 'real':
        p = float(rng.uniform(4, 60)); n = int(np.ceil(p)); rad, shape, cen = p / 2, (n, n), (n / 2, n / 2); arg = p
    else:
        shape = tuple(int(v) for v in rng.integers(10, 70, 2))
        rad = float(rng.uniform(3, min(shape) / 2))
        cen = tuple(float(rng.uniform(rad, s - rad)) if s > 2 * rad else s / 2 for s in shape)
        arg = CircularMask(shape, rad, list(cen))
    c.describe(mode=mode, shape=list(shape), radius=rad, center=list(cen))
    zg = ZernikeGenerator(arg, xp=np, dtype=d)
    yy, xx = np.mgrid[0:shape[0], 0:shape[1]]
    X = (xx + 0.5 - cen[1]) / rad
    Y = (yy + 0.5 - cen[0]) / rad
    r = np.hypot(X, Y)
    clear = abs(r - 1) > 1e-6
    ins = (r <= 1)
    gx, gy = zg.cartesian_coordinates()
    c.near(gx, X, 'zernike-x-grid', rtol=0, atol=1e-5 if c.precision else 1e-9)
    c.near(gy, Y, 'zernike-y-grid', rtol=0, atol=1e-5 if c.precision else 1e-9)
    js = [1] + [int(v) for v in rng.permutation(np.arange(2, int(rng.integers(8, 46))))[:14]]
    if rng.random() < .2:
        js.append(int(rng.integers(46, 120)))
    maps = {}
    for j in js:
        z = np.array(zg.getZernike(j) if rng.random() < .5 else zg[j], float)
        maps[j] = z
        ref = np.where(ins, zern(j, X, Y), 0)
        at = (1e-9 if c.precision == 0 else 3e-5) * (1 + noll(j)[0] ** 2)
        c.near(z[clear], ref[clear], 'zernike-map', rtol=0, atol=at, msg=f'mode {j}')
        c.eq(ZernikeGenerator.radial_order(j), noll(j)[0], 'radial-order')
        nn, mm = ZernikeGenerator.degree(j)
        c.check(nn == noll(j)[0] and abs(mm) == abs(noll(j)[1]), 'zernike-degree', f'mode {j}: {nn, mm}')
    c.saw('zernike_maps', len(js))
    for j in js[:4]:
        c.near(zg.getZernike(j), maps[j], 'zernike-cache', rtol=0, atol=0, msg='second request of the same mode differs')
    if ins.sum() > 700 and r.min() < .2 and mode != 'mask':
        for a in js[:5]:
            for b in js[:5]:
                g = float((maps[a] * maps[b])[ins].mean())
                lim = 1.2 * (1 + noll(a)[0]) * (1 + noll(b)[0]) / np.sqrt(ins.sum())
                c.check(abs(g - (a == b)) < lim, 'zernike-orthonormal', f'<Z{a},Z{b}> = {g}', limit=lim)
        c.saw('gram_entries', 25)
    h = 1e-5
    for j in [j for j in js if j < 46][:5]:
        dx, dy = np.array(zg.getDerivativeX(j), float), np.array(zg.getDerivativeY(j), float)
        rx = (zern(j, X + h, Y) - zern(j, X - h, Y)) / (2 * h)
        ry = (zern(j, X, Y + h) - zern(j, X, Y - h)) / (2 * h)
        sc = 1 + noll(j)[0] ** 3
        at = (1e-6 if c.precision == 0 else 1e-4) * sc
        m = clear & ins & (r > 1e-3)
        c.near(dx[m], rx[m], 'zernike-x-derivative', rtol=0, atol=at, msg=f'mode {j}')
        c.near(dy[m], ry[m], 'zernike-y-derivative', rtol=0, atol=at, msg=f'mode {j}')
        c.near(dx[clear & ~ins], 0, 'zernike-derivative-outside', rtol=0, atol=0)
        c.saw('derivative_maps', 2)
    # Equality of the dictionary interfaces
    dd = zg.getZernikeDict(js[:3])
    c.check(sorted(dd) == sorted(js[:3]), 'zernike-dict', 'wrong keys')
    for j in js[:3]:
        c.near(dd[j], maps[j], 'zernike-dict-values', rtol=0, atol=0)
    for bad in (0, -3, 2.5):
        c.raises(ValueError, lambda: zg.getZernike(bad), 'zernike-invalid-index')
    c.saw('zernike_configs')


@CHECK.section('zernbasis', quick=24, thorough=300, precisions=(0, 1))
def zernbasis(c):
    import numpy as np
    from specula.lib.compute_zern_ifunc import compute_zern_ifunc
    from specula.data_objects.ifunc import IFunc
    rng = c.rng
    d = dt(c)
    n = int(rng.integers(16, 64))
    nz = int(rng.integers(2, 22))
    obs = float(rng.choice([0, 0.15, 0.3]))
    dia = float(rng.choice([1., 1., 0.9, 0.7]))
    given = bool(rng.random() < .3)
    start = int(rng.integers(0, nz)) if rng.random() < .3 else 0
    mask = None
    if given:
        mask = disc(n, obs, dia)[0].astype(float) * (rng.random() * 0 + 1)
        if rng.random() < .5:
            mask[: n // 5] = 0
    c.describe(n=n, nz=nz, obs=obs, dia=dia, given=given, start=start)
    ifs, m = compute_zern_ifunc(n, nz, np, d, obsratio=obs, diaratio=dia, start_mode=start, mask=mask)
    ifs = np.array(ifs, float)
    mk = np.asarray(m) > 0
    if mask is None:
        ins, edge = disc(n, obs, dia)
        c.check(not np.any((mk != ins) & ~edge), 'zernike-basis-mask', 'wrong pupil')
    else:
        c.eq(mk, mask > 0, 'zernike-basis-mask')
    c.eq(ifs.shape, (nz - start, int(mk.sum())), 'zernike-basis-shape')
    t = 1e-9 if c.precision == 0 else 1e-4
    c.near(ifs.mean(axis=1), 0, 'zernike-basis-zero-mean', rtol=0, atol=t)
    c.near(ifs.std(axis=1), 1, 'zernike-basis-unit-rms', rtol=t)
    v = (np.arange(n) + .5 - n / 2) / (n / 2)
    X, Y = np.meshgrid(v, v)
    ins = np.hypot(X, Y) <= 1 + 1e-9
    Z = np.array([np.ones(int(mk.sum()))] + [np.where(ins, zern(j, X, Y), 0)[mk] for j in range(2 + start, nz + 2)])
    for k in range(nz - start):
        # k-th mode lives in piston + the first k+1 requested Zernikes (Gram-Schmidt order)
        B = Z[:k + 2].T
        co = np.linalg.lstsq(B, ifs[k], rcond=None)[0]
        res = ifs[k] - B @ co
        c.check(np.sqrt(np.mean(res ** 2)) < (1e-6 if c.precision == 0 else 5e-3), 'zernike-basis-span', f'mode {k} is not a combination of the first {k + 1} Zernikes', rms=float(np.sqrt(np.mean(res ** 2))))
    if mask is None and obs <= .3 and dia == 1. and start == 0:
        g = ifs @ ifs.T / ifs.shape[1]
        np.fill_diagonal(g, 0)
        c.check(abs(g).max() < .35, 'zernike-basis-orthogonal', f'largest correlation {abs(g).max()}')
        c.check(abs(g[:2, :2]).max() < .02, 'zernike-basis-tilts', 'tip and tilt correlated')
    c.saw('zernike_bases')
    # The data object holds the same basis; cutting keeps the requested rows
    prec = c.precision
    kw = dict(type_str='zernike', npixels=n, nmodes=nz, obsratio=obs, diaratio=dia, mask=mask, target_device_idx=-1, precision=prec)
    full = IFunc(**kw)
    if start == 0:
        c.near(full.influence_function, ifs, 'ifunc-object', rtol=t, atol=t * 10)
    F = np.array(full.influence_function)
    a = int(rng.integers(0, nz)); b = int(rng.integers(1, nz - a + 1))
    cut = IFunc(F, mask=np.asarray(full.mask_inf_func), start_mode=a, nmodes=b, target_device_idx=-1, precision=prec)
    c.near(cut.influence_function, F[a:a + b], 'ifunc-cut', rtol=0, atol=0)
    ii = [int(v) for v in rng.permutation(nz)[:int(rng.integers(1, nz + 1))]]
    cut = IFunc(F, mask=np.asarray(full.mask_inf_func), idx_modes=ii, target_device_idx=-1, precision=prec)
    c.near(cut.influence_function, F[ii], 'ifunc-cut-list', rtol=0, atol=0)
    inv = full.inverse()
    pin = np.array(inv.ifunc_inv if hasattr(inv, 'ifunc_inv') else inv.get_value(), float)
    c.near(F.astype(float) @ pin, np.eye(nz), 'ifunc-inverse', rtol=0, atol=1e-7 if prec == 0 else 5e-3)
    c3 = np.array(full.ifunc_2d_to_3d(normalize=False))
    mk2 = np.asarray(full.mask_inf_func) > 0
    for k in range(nz):
        c.near(c3[:, :, k][mk2], F[k], 'ifunc-3d', rtol=0, atol=0)
        c.near(c3[:, :, k][~mk2], 0, 'ifunc-3d-outside', rtol=0, atol=0)
    c.saw('ifunc_objects', 3)


@CHECK.section('zonal', quick=24, thorough=240, precisions=(0, 1), chunk=4)
def zonal(c):
    import numpy as np
    from specula.lib.compute_zonal_ifunc import compute_zonal_ifunc
    rng = c.rng
    d = dt(c)
    geom = ['square', 'circular', 'alpao'][c.i % 3]
    if geom == 'square':
        na = int(rng.integers(3, 7)); k = int(rng.integers(2, 6)); dim = (na - 1) * k + 1
        if rng.random() < .5:
            dim = int(rng.integers(12, 30)); k = None
    elif geom == 'alpao':
        na = int(rng.integers(4, 8)); dim = int(rng.integers(14, 30)); k = None
    else:
        na = int(rng.integers(3, 7)); dim = int(rng.integers(14, 30)); k = None
    off = float(rng.uniform(-60, 60)) if geom == 'circular' and rng.random() < .5 else 0.
    mech = bool(rng.random() < .5)
    slave = bool(rng.random() < .6)
    lin = bool(rng.random() < .5)
    coup = [float(rng.uniform(.1, .4)), float(rng.uniform(0, .1))]
    obs = float(rng.choice([0, .2, .3])); dia = float(rng.choice([1., .85, .7]))
    thr = float(rng.choice([.1, .3, .6, .9]))
    c.describe(geom=geom, na=na, dim=dim, off=off, mech=mech, slave=slave, lin=lin, coup=coup, obs=obs, dia=dia, thr=thr)
    kw = dict(geom=geom, angle_offset=off, dtype=d, coupling_coeffs=coup)
    if geom == 'circular' and rng.random() < .5:
        kw = dict(kw, geom=None, circ_geom=True)
    base, fm, co, sl = q(compute_zonal_ifunc, dim, na, diaratio=3., **kw)   # whole frame
    base = np.array(base, float); co = np.array(co, float)
    c.check(np.all(np.asarray(fm) == 1), 'zonal-full-mask', 'mask should cover the frame')
    cube = base.reshape(-1, dim, dim)
    cen = (dim - 1) / 2
    nact = len(cube)
    # geometry
    if geom == 'square':
        g = np.linspace(0, dim - 1, na)
        ref = np.array([[x, y] for y in g for x in g]).T
        c.near(co, ref, 'zonal-square-coordinates', rtol=0, atol=1e-9 * dim)
        step = (dim - 1) / (na - 1)
    elif geom == 'circular':
        nr = int(np.ceil((na + 1) / 2)) if na % 2 == 0 else int(np.ceil(na / 2))
        c.eq(nact, 1 + 3 * nr * (nr - 1), 'zonal-circular-count')
        step = (dim - 1) / (2 * nr - 2)
        ref = [[cen, cen]]
        for r in range(1, nr):
            for j in range(6 * r):
                a = np.radians(off + 60. / r * j)
                ref.append([cen + r * step * np.cos(a), cen + r * step * np.sin(a)])
        c.near(co, np.array(ref).T, 'zonal-circular-coordinates', rtol=0, atol=1e-6 * dim)
    else:
        g = np.linspace(0, dim - 1, na)
        step = (dim - 1) / (na - 1)
        for x, y in co.T:
            c.check(min(abs(g - x)) < 1e-6 * dim and min(abs(g - y)) < 1e-6 * dim, 'zonal-alpao-coordinates', 'actuator off the grid')
        rr = np.hypot(co[0] - cen, co[1] - cen)
        allr = np.array([np.hypot(x - cen, y - cen) for x in g for y in g])
        c.eq(nact, int((allr <= rr.max() + 1e-6).sum()), 'zonal-alpao-selection', msg='actuators inside the circle are missing')
        c.check(rr.max() >= (dim - 1) / 2 - step, 'zonal-alpao-radius', 'pupil not covered')
    # nodes of the grid
    at = 1e-6 if c.precision == 0 else 1e-4
    nodes = 0
    for a in range(nact):
        x, y = co[:, a]
        if abs(x - round(x)) < 1e-9 and abs(y - round(y)) < 1e-9:
            col = cube[:, int(round(y)), int(round(x))]
            e = np.zeros(nact); e[a] = 1
            c.near(col, e, 'zonal-node-value', rtol=0, atol=at, msg='influence at an actuator is not 1 for itself and 0 for the others')
            nodes += 1
    c.saw('actuator_nodes', nodes)
    # geometry symmetric under a reflection: so is the set of influence functions
    if off == 0:
        for fx, fy in ((True, False), (False, True)):
            cx = 2 * cen - co[0] if fx else co[0]
            cy = 2 * cen - co[1] if fy else co[1]
            D = np.hypot(cx[:, None] - co[0], cy[:, None] - co[1])
            p = D.argmin(axis=1)
            if D.min(axis=1).max() < 1e-6:
                f = cube[p][:, ::-1 if fy else 1, ::-1 if fx else 1]
                c.near(f, cube, 'zonal-reflection', rtol=0, atol=at * 10, msg='reflected actuator has a different influence function')
                c.saw('reflections')
    coupled = cube
    if mech:
        D = np.hypot(co[0][:, None] - co[0], co[1][:, None] - co[1])
        eps = 1e-5 * step
        n1 = (D > eps) & (D <= step + eps)
        n2 = (D > step + eps) & (D <= 2 * step + eps)
        coupled = cube + coup[0] * np.tensordot(n1.astype(float), cube, 1) + coup[1] * np.tensordot(n2.astype(float), cube, 1)
        out = np.array(q(compute_zonal_ifunc, dim, na, diaratio=3., do_mech_coupling=True, **kw)[0], float).reshape(-1, dim, dim)
        c.near(out, coupled, 'zonal-coupling', rtol=0, atol=at * 10, msg='coupled influence is not own + c1*nearest + c2*second neighbours')
        c.saw('coupled_actuators', nact)
    given = disc(dim, obs, dia)[0].astype(float) if rng.random() < .5 else None
    ecw = float(rng.choice([0, .3])) if lin else 0.
    ifs, mk, co2, sm = q(compute_zonal_ifunc, dim, na, obsratio=obs, diaratio=dia, mask=given, do_mech_coupling=mech, do_slaving=slave, slaving_thr=thr, linear_slaving=lin,
                         edge_constraint_weight=ecw, **kw)
    ifs = np.array(ifs, float); mk = np.asarray(mk) > 0; co2 = np.array(co2, float); sm = np.array(sm, float)
    ins, edge = disc(dim, obs, dia)
    c.check(not np.any((mk != ins) & ~edge), 'zonal-pupil', 'pupil mask differs')
    if not slave:
        c.near(ifs, coupled[:, mk], 'zonal-restriction', rtol=0, atol=at * 10)
        c.near(co2, co, 'zonal-coordinates-kept', rtol=0, atol=0)
    else:
        pk = coupled[:, mk].max(axis=1) if mk.any() else np.zeros(nact); mx = coupled.max(axis=(1, 2))
        if np.any(abs(pk - thr * mx) < 1e-5):
            c.skip()
            return
        if not np.any(pk >= thr * mx):
            c.skip()
            return
        ma = np.where(pk >= thr * mx)[0]; sv = np.where(pk < thr * mx)[0]
        c.near(co2, co[:, ma], 'zonal-master-coordinates', rtol=0, atol=1e-9)
        c.eq(sm.shape, (nact, nact), 'zonal-slave-matrix-shape')
        W = sm[np.ix_(ma, sv)]
        rest = sm.copy(); rest[np.ix_(ma, sv)] = 0
        c.near(rest, 0, 'zonal-slave-matrix-support', rtol=0, atol=0)
        c.near(ifs, coupled[ma][:, mk] + W @ coupled[sv][:, mk], 'zonal-slaved', rtol=0, atol=at * 50, msg='slaved basis is not masters + weighted slaves')
        if len(sv) and len(ma):
            D = np.hypot(co[0][ma][:, None] - co[0][sv], co[1][ma][:, None] - co[1][sv])
            if not lin:
                near = D <= 1.1 * step
                if not np.any(abs(D - 1.1 * step) < 1e-6):
                    n = near.sum(axis=0)
                    c.near(W, near / np.maximum(n, 1), 'zonal-slave-average', rtol=1e-5, atol=1e-9)
            elif ecw == 0:
                cnt = (D <= 2.5 * step).sum(axis=0)
                for s in range(len(sv)):
                    sel = W[:, s] != 0
                    P = np.vstack([co[0][ma][sel], co[1][ma][sel], np.ones(sel.sum())])
                    if sel.sum() >= 3 and cnt[s] >= 3 and np.linalg.matrix_rank(P - P.mean(axis=1, keepdims=True) * [[1], [1], [0]], tol=1e-3) == 3:
                        got = P @ W[sel, s]
                        c.near(got, [co[0][sv[s]], co[1][sv[s]], 1.], 'zonal-linear-slaving', rtol=0, atol=1e-4 * dim if c.precision == 0 else 2e-2, msg='plane on the masters is not extrapolated to the slave')
                        c.saw('extrapolated_slaves')
            c.saw('slaves', len(sv))
    c.saw('zonal_configs')


@CHECK.section('petal', quick=40, thorough=600, precisions=(0, 1))
def petal(c):
    import numpy as np
    from specula.lib.compute_petal_ifunc import compute_petal_ifunc
    from specula.lib.make_mask import make_mask
    rng = c.rng
    n = int(rng.integers(16, 60)); npet = int(rng.integers(2, 9))
    off = float(rng.choice([0., rng.uniform(-180, 360)]))
    obs = float(rng.choice([0, .2, .4])); dia = float(rng.choice([1., .8]))
    spider = bool(rng.random() < .5); sw = int(rng.integers(1, 5))
    tilts = bool(rng.random() < .5)
    given = bool(rng.random() < .3)
    c.describe(n=n, npet=npet, off=off, obs=obs, dia=dia, spider=spider, sw=sw, tilts=tilts, given=given)
    ins, edge = disc(n, obs, dia)
    mask = None
    if given:
        mask = ins & (np.random.default_rng(c.i).random((n, n)) > .1)
    ifs, mk, co = compute_petal_ifunc(n, npet, dtype=dt(c), angle_offset=off, obsratio=obs, diaratio=dia, mask=mask, spider=spider, spider_width=sw, add_tilts=tilts)
    ifs = np.array(ifs, float); mk = np.asarray(mk) > 0
    full = make_mask(n, obs, dia, xp=np).astype(bool)
    c.check(not np.any((full != ins) & ~edge), 'petal-pupil', 'pupil differs')
    if given:
        c.eq(mk, mask, 'petal-given-mask')
    elif not spider:
        c.eq(mk, full, 'petal-mask')
    else:
        c.check(not np.any(mk & ~full), 'petal-spider-adds', 'spider added pixels')
    c.eq(ifs.shape, ((3 if tilts else 1) * npet, int(mk.sum())), 'petal-shape')
    P = ifs[:npet]
    c.check(np.all((P == 0) | (P == 1)), 'petal-values', 'petal pistons are not 0/1')
    c.eq(P.sum(axis=0), np.ones(int(mk.sum())), 'petal-partition', msg='petals do not partition the pupil')
    y, x = np.mgrid[:n, :n] - n / 2
    th = np.degrees(np.arctan2(y, x))
    which = ((th - off) % 360) / (360. / npet)
    clear = (abs(which - np.round(which)) > 1e-4) & ~((x == 0) & (y == 0))
    lab = P.argmax(axis=0)
    sel = clear[mk]
    c.eq(lab[sel], (np.floor(which[mk][sel]).astype(int)) % npet, 'petal-angle', msg='pixel belongs to the wrong petal')
    c.saw('petal_pixels', int(sel.sum()))
    for k in range(npet):
        w = P[k] > 0
        if w.sum():
            ys, xs = np.where(mk)
            c.near(co[:, k], [xs[w].mean(), ys[w].mean()], 'petal-centroid', rtol=1e-6)
        if tilts and w.sum() > 4:
            for q_, ax in ((1, x), (2, y)):
                t = ifs[q_ * npet + k]
                v = ax[mk][w]
                c.near(t[~w], 0, 'petal-tilt-outside', rtol=0, atol=0)
                c.near(t[w], (v - v.mean()) / (v.std() or 1), 'petal-tilt', rtol=0, atol=1e-9 if c.precision == 0 else 1e-5)
    if spider and not given:
        ang = np.radians(off) + 2 * np.pi / npet * np.arange(npet)
        par = x[..., None] * np.cos(ang) + y[..., None] * np.sin(ang)
        per = abs(-x[..., None] * np.sin(ang) + y[..., None] * np.cos(ang))
        dist = np.where(par >= 0, per, np.hypot(x, y)[..., None]).min(axis=-1)
        gone = full & ~mk
        if gone.any():
            c.check(dist[gone].max() <= sw * .6 + 2, 'spider-arm-position', f'pixel darkened {dist[gone].max()} px away from any petal boundary', width=sw)
        rim = (np.hypot(x, y) < n / 2 - 2) & (np.where(par >= 1, per, np.inf).min(axis=-1) < .25) & full
        c.check(not np.any(mk & rim), 'spider-arm-continuous', f'{int((mk & rim).sum())} pixels on a petal boundary are lit', width=sw)
        c.saw('spider_pixels', int(gone.sum()))
    c.saw('petal_configs')


@CHECK.section('modal', quick=18, thorough=150, precisions=(0, 1), chunk=3)
def modal(c):
    import numpy as np
    from specula.lib.modal_base_generator import make_modal_base_from_ifs_fft, compute_ifs_covmat, generate_distance_grid, generate_phase_spectrum
    from specula.lib.compute_zonal_ifunc import compute_zonal_ifunc
    from scipy.special import gamma
    rng = c.rng
    d = dt(c)
    n = int(rng.integers(16, 30)); na = int(rng.integers(4, 7))
    obs = float(rng.choice([0, .2])); circ = bool(rng.random() < .6)
    D = float(rng.choice([2., 8., 39.])); r0 = float(rng.uniform(.05, .3)); L0 = float(rng.uniform(10, 60))
    nz = int(rng.choice([0, 0, 2, 5])); nf = int(rng.choice([0, 0, 1, 3]))
    ovs = int(rng.choice([2, 3]))
    c.describe(n=n, na=na, obs=obs, circ=circ, D=D, r0=r0, L0=L0, nz=nz, nf=nf, ovs=ovs)
    ifs, mask, co, _ = q(compute_zonal_ifunc, n, na, dtype=d, obsratio=obs, circ_geom=circ, do_slaving=not circ)
    scale = float(rng.choice([1., 1e-2, 30.]))     # units of the influence functions
    ifs = (ifs * scale).astype(d)
    nact, npix = ifs.shape
    # covariance: direct evaluation of the Fourier-domain sum
    cov = np.array(compute_ifs_covmat(mask, D, ifs, r0, L0, oversampling=ovs, dtype=d), float)
    c.near(cov, cov.T, 'ifs-covariance-symmetric', rtol=0, atol=(1e-9 if c.precision == 0 else 1e-4) * abs(cov).max())
    k = np.fft.fftfreq(ovs * n) * ovs * n
    f2 = (k[:, None] ** 2 + k[None, :] ** 2) / (ovs * D) ** 2
    cst = (gamma(11 / 6) ** 2 / (2 * np.pi ** (11 / 3))) * (24 * gamma(6 / 5) / 5) ** (5 / 6)
    ps = cst * r0 ** (-5 / 3) * (f2 + 1 / L0 ** 2) ** (-11 / 6)
    i1, i2 = (int(v) for v in rng.integers(0, nact, 2))
    sup = np.zeros((2, ovs * n, ovs * n))
    for s, a in zip(sup, (i1, i2)):
        t = np.zeros((n, n)); t[np.asarray(mask) > 0] = np.array(ifs[a], float); s[:n, :n] = t
    F = np.fft.fft2(sup)
    ref = float(np.real((F[0] * ps * np.conj(F[1])).sum())) / (npix ** 2 * (ovs * D) ** 2)
    c.near(cov[i1, i2], ref, 'ifs-covariance', rtol=1e-8 if c.precision == 0 else 1e-3, scale=abs(cov).max())
    gr = np.array(generate_distance_grid(ovs * n, dtype=d), float)
    c.near(gr, np.hypot(*np.meshgrid(abs(k), abs(k))), 'distance-grid', rtol=1e-6)
    fl = float(rng.uniform(1.5, 3))
    c.near(np.array(generate_phase_spectrum(gr, r0 * fl, L0, dtype=np.float64)) * fl ** (5 / 3), np.array(generate_phase_spectrum(gr, r0, L0, dtype=np.float64)), 'phase-spectrum-r0-law', rtol=1e-9)
    if nz + nf + 4 > nact:
        nf = 0
    fm = None
    if nf:
        fm = rng.normal(size=(nf, nact)).astype(d) @ ifs
    if c.precision == 1 and not circ:
        nf, fm = 0, None
    kl, m2c, sv = q(make_modal_base_from_ifs_fft, mask, D, ifs, r0, L0, zern_modes=nz, oversampling=ovs, filt_modes=fm, dtype=d)
    kl = np.array(kl, float); m2c = np.array(m2c, float); I = np.array(ifs, float)
    c.eq(kl.shape, (nact - 1 - nf, npix), 'modal-base-count')
    c.eq(m2c.shape, (nact, nact - 1 - nf), 'modal-m2c-shape')
    K = kl[nz:]
    # quality of the fit of the removed modes
    lo = 1e-6 if c.precision == 0 else 2e-2
    g = K @ K.T / npix
    c.near(g, np.eye(len(K)), 'modal-orthonormal', rtol=0, atol=lo)
    c.near(K.mean(axis=1), 0, 'modal-zero-mean', rtol=0, atol=lo if nz + nf == 0 else 2e-2)
    s2 = np.array(sv['S2'], float)
    c.check(np.all(np.diff(s2) <= 1e-6 * s2[0] + 1e-12), 'modal-order', 'turbulence energy is not decreasing')
    # statistical independence under the turbulence covariance, in decreasing order of energy
    cv = np.array(compute_ifs_covmat(mask, D, K.astype(d), r0, L0, oversampling=ovs, dtype=d), float)
    var = np.diag(cv)
    off = cv / np.sqrt(np.outer(var, var)); np.fill_diagonal(off, 0)
    big = var > 1e-4 * var[0]
    c.check(abs(off[np.ix_(big, big)]).max() < (1e-3 if c.precision == 0 else 5e-2), 'modal-independent', f'correlation {abs(off[np.ix_(big, big)]).max()} between modes')
    c.check(np.all(np.diff(var[big]) <= .01 * var[big][:-1]), 'modal-variance-order', 'mode variances not decreasing')
    rec = m2c.T @ I
    e = rec - kl
    e -= e.mean(axis=1, keepdims=True)
    c.check(np.sqrt((e ** 2).mean(axis=1)).max() < .06, 'modal-commands', f'commands reproduce the mode with rms error {np.sqrt((e ** 2).mean(axis=1)).max()}')
    if nf:
        f = np.array(fm, float); f -= f.mean(axis=1, keepdims=True); f /= f.std(axis=1, keepdims=True)
        ov = abs(K @ f.T / npix).max()
        c.check(ov < (.02 if c.precision == 0 else .05), 'modal-filtered', f'a mode to be filtered out is left in the base (overlap {ov})')
        c.saw('filtered_modes', nf)
    if nz:
        v = (np.arange(n) + .5 - n / 2) / (n / 2)
        X, Y = np.meshgrid(v, v)
        mk = np.asarray(mask) > 0
        Z = np.array([np.ones(npix)] + [np.where(np.hypot(X, Y) <= 1 + 1e-9, zern(j, X, Y), 0)[mk] for j in range(2, nz + 2)])
        for i in range(2):
            co_ = np.linalg.lstsq(Z.T, kl[i], rcond=None)[0]
            res = kl[i] - Z.T @ co_
            c.check(res.std() < .2 * kl[i].std(), 'modal-zernike-first', f'mode {i} is not Zernike-like')
        x = abs(K @ kl[:nz].T / npix).max()
        c.check(x < .06, 'modal-zernike-decoupled', f'later modes correlate with the Zernikes ({x})')
        c.saw('zernike_first_modes', nz)
    cm = float(rng.choice([5., 20., 100.]))
    kl2, m2, sv2 = q(make_modal_base_from_ifs_fft, mask, D, ifs, r0, L0, zern_modes=0, oversampling=2, if_max_condition_number=cm, dtype=d)
    kl2 = np.array(kl2, float)
    S1 = np.array(sv2['S1'], float)[:nact - 1]
    if not np.any(abs(S1 - S1[0] / cm) < 1e-3 * S1[0] / cm):
        c.eq(len(kl2), int((S1 >= S1[0] / cm).sum()), 'modal-condition-cut')
    c.near(kl2 @ kl2.T / npix, np.eye(len(kl2)), 'modal-orthonormal-cut', rtol=0, atol=lo)
    c.saw('modal_bases', 2)
    c.saw('modes_checked', len(kl))


@CHECK.section('masks', quick=80, thorough=1500, precisions=(0, 1))
def masks(c):
    import numpy as np
    from specula.lib.make_mask import make_mask
    from specula.lib.mask import CircularMask, AnnularMask, BaseMask
    rng = c.rng
    n = int(rng.integers(4, 80))
    obs = float(rng.choice([0, rng.uniform(.05, .6)])); dia = float(rng.choice([1., rng.uniform(.3, 1.2)]))
    xc, yc = (float(v) for v in rng.uniform(-.5, .5, 2)) if rng.random() < .5 else (0., 0.)
    sq = bool(rng.random() < .3)
    c.describe(n=n, obs=obs, dia=dia, xc=xc, yc=yc, square=sq)
    ins, edge = disc(n, obs, dia, xc, yc, sq)
    kw = dict(obsratio=obs if obs else None, diaratio=dia, xc=xc, yc=yc, square=sq, xp=np)
    m, idx = make_mask(n, get_idx=True, **kw)
    c.eq(m.shape, (n, n), 'mask-shape')
    c.check(np.all((m == 0) | (m == 1)), 'mask-values', 'mask is not 0/1')
    bad = (m.astype(bool) != ins) & ~edge
    c.check(not bad.any(), 'mask-membership', f'{int(bad.sum())} pixels wrongly inside or outside')
    t = np.zeros_like(m); t[idx] = 1
    c.eq(t, m, 'mask-index')
    c.eq(make_mask(n, **kw), m, 'mask-repeatable')
    inv, ii = make_mask(n, inverse=True, get_idx=True, **kw)
    c.eq(inv + m, np.ones((n, n)), 'mask-inverse')
    t = np.zeros_like(m); t[ii] = 1
    c.eq(t, inv, 'mask-inverse-index')
    if xc == yc == 0 and not edge.any():
        c.eq(m, m[::-1], 'mask-up-down'); c.eq(m, m[:, ::-1], 'mask-left-right'); c.eq(m, m.T, 'mask-transpose')
    if not sq and dia <= .5 and m.any() and n > 10:
        p = make_mask(n, obsratio=None, diaratio=dia, xc=xc, yc=yc, centeronpixel=True, xp=np)
        if abs(xc) + dia < .9 and abs(yc) + dia < .9:
            ys, xs = np.where(p)
            got = np.array([(xs.mean() + .5) / (n / 2) - 1, (ys.mean() + .5) / (n / 2) - 1]) if len(ys) else np.array([9, 9])
            c.check(abs(got - [xc, yc]).max() < 1.6 * 2 / n, 'mask-center-on-pixel', f'pupil asked at {xc, yc} found at {got.tolist()}')
            c.saw('snapped_masks')
    # arte-like masks: True outside
    shape = tuple(int(v) for v in rng.integers(4, 60, 2))
    dflt = rng.random() < .3
    r = None if dflt else float(rng.uniform(1, min(shape) / 2))
    ce = None if dflt else [float(rng.uniform(0, s)) for s in shape]
    rin = float(rng.uniform(0, (r or min(shape) / 2))) if rng.random() < .7 else 0
    yy, xx = np.mgrid[:shape[0], :shape[1]] + .5
    rr, cc = (r or min(shape) / 2), (ce or [s / 2 for s in shape])
    dist = np.hypot(yy - cc[0], xx - cc[1])
    ok = (abs(dist - rr) > 1e-9) & (abs(dist - rin) > 1e-9)
    c1 = CircularMask(shape, r, ce)
    c.eq(np.asarray(c1.mask())[ok], (dist > rr)[ok], 'circular-mask')
    c.near(c1.radius(), rr, 'circular-radius', rtol=1e-12); c.near(c1.center(), cc, 'circular-center', rtol=1e-12)
    c2 = AnnularMask(shape, r, ce, rin)
    c.eq(np.asarray(c2.mask())[ok], ~((dist <= rr) & ((dist > rin) | (rin == 0)))[ok], 'annular-mask')
    for k in (c1, c2):
        c.eq(k.shape(), shape, 'mask-object-shape')
        c.eq(np.asarray(k.asTransmissionValue()), (~np.asarray(k.mask())).astype(int), 'mask-transmission')
        c.eq(np.asarray(k.in_mask_indices()), np.flatnonzero(~np.asarray(k.mask())), 'mask-in-indices')
        ma = k.as_masked_array(xp=np)
        c.eq(np.ma.getmaskarray(ma), np.asarray(k.mask()), 'mask-as-masked-array')
    c.check((c1 == AnnularMask(shape, r, ce, 0)) and (c1 == CircularMask(shape, r, ce)), 'mask-equality', 'equal masks compare different')
    c.check((c1 == c2) == bool(np.array_equal(c1.mask(), c2.mask())), 'mask-equality', 'comparison of different masks')
    c.check(BaseMask(np.asarray(c1.mask())) == c1, 'mask-equality', 'base mask')
    c.saw('masks', 5)


@CHECK.section('grid', quick=60, thorough=1000, precisions=(0, 1))
def grid(c):
    import numpy as np
    from specula.lib.make_xy import make_xy
    from specula.lib.utils import unravel_index_2d, make_orto_modes, make_subpixel_shift_phase, psd_to_signal, local_mean_rebin
    rng = c.rng
    n = int(rng.integers(2, 70)); ratio = float(rng.uniform(.1, 9))
    zs, qu, ff, po, ve = (bool(rng.random() < .5) for _ in range(5))
    c.describe(n=n, ratio=ratio, zero_sampled=zs, quarter=qu, fft=ff, polar=po, vector=ve)
    d = dt(c)
    out = make_xy(n, ratio, xp=np, dtype=d, zero_sampled=zs, quarter=qu, fft=ff, polar=po, vector=ve)
    ax = (np.arange(n) + (0 if (zs and n % 2 == 0) else .5)) * 2 * ratio / n - ratio
    if qu:
        ax = ax[ax > -1e-9 * ratio]
    elif ff:
        k = int(np.argmax(ax > -1e-9 * ratio))
        ax = np.concatenate([ax[k:], ax[:k]])
    at = ratio * (1e-12 if c.precision == 0 else 1e-6)
    if ve:
        c.near(out, ax, 'xy-vector', rtol=0, atol=at)
    else:
        X, Y = np.meshgrid(ax, ax)
        if po:
            c.near(out[0], np.hypot(X, Y), 'xy-radius', rtol=0, atol=2 * at)
            far = np.hypot(X, Y) > 1e-3 * ratio
            dphi = np.exp(1j * np.array(out[1], float)) - np.exp(1j * np.arctan2(Y, X))
            c.near(abs(dphi)[far], 0, 'xy-angle', rtol=0, atol=1e-9 if c.precision == 0 else 1e-3)
        else:
            c.near(out[0], X, 'xy-x', rtol=0, atol=at); c.near(out[1], Y, 'xy-y', rtol=0, atol=at)
    c.raises(ValueError, lambda: make_xy(int(rng.integers(-2, 2)), ratio, xp=np), 'xy-too-small')
    # linear index
    sh = tuple(int(v) for v in rng.integers(1, 40, 2))
    ii = rng.integers(0, sh[0] * sh[1], 20)
    a, b = unravel_index_2d(ii, sh, np)
    ra, rb = np.unravel_index(ii, sh)
    c.eq(a, ra, 'unravel-row'); c.eq(b, rb, 'unravel-col')
    # orthogonalisation keeps the leading span
    p, m = int(rng.integers(2, 8)), int(rng.integers(9, 50))
    A = rng.normal(size=(p, m))
    Q = np.array(make_orto_modes(A.astype(d), np, d), float)
    c.eq(Q.shape, (p, m), 'orto-shape')
    c.near(Q @ Q.T, np.eye(p), 'orto-rows', rtol=0, atol=1e-10 if c.precision == 0 else 1e-4)
    T = A @ Q.T
    c.near(np.triu(T, 1), 0, 'orto-order', rtol=0, atol=1e-9 if c.precision == 0 else 1e-3, msg='row k is not in the span of the first k rows')
    c.near(T @ Q, A, 'orto-span', rtol=0, atol=1e-9 if c.precision == 0 else 1e-3)
    # sub-pixel shift ramp
    s = int(rng.integers(4, 40))
    img = rng.normal(size=(s, s))
    sx, sy = (int(v) for v in rng.integers(-s, s, 2))
    ph = make_subpixel_shift_phase(s if rng.random() < .5 else (s, s), np, np.complex128, shift_x=sx, shift_y=sy)
    c.near(np.real(np.fft.ifft2(np.fft.fft2(img) * ph)), np.roll(img, (sy, sx), (0, 1)), 'shift-integer', rtol=0, atol=1e-9)
    fx, fy = (float(v) for v in rng.uniform(-3, 3, 2))
    ki, kj = (int(v) for v in rng.integers(-(s - 1) // 2 + 1, (s - 1) // 2 + 1, 2))
    yy, xx = np.mgrid[:s, :s]
    wave = lambda dx, dy: np.exp(2j * np.pi * (kj * (xx - dx) + ki * (yy - dy)) / s)
    ph = make_subpixel_shift_phase(s, np, np.complex128, shift_x=fx, shift_y=fy)
    c.near(np.fft.ifft2(np.fft.fft2(wave(0, 0)) * ph), wave(fx, fy), 'shift-fraction', rtol=0, atol=1e-8)
    # signal from a spectrum
    nn = int(rng.integers(3, 400)); fs = float(rng.uniform(10, 2000))
    psd = rng.uniform(0, 5, nn)
    re, im = psd_to_signal(psd, fs, np, np.float64, np.complex128, seed=int(rng.integers(1, 999)))
    c.eq(len(re), 2 * nn, 'psd-signal-length')
    pw = fs / nn / 2 * (2 * psd.sum() - psd[-1])
    c.near(np.mean(re ** 2 + im ** 2), pw, 'psd-signal-power', rtol=1e-9)
    c.near(re.mean() + 1j * im.mean(), 0, 'psd-signal-mean', rtol=0, atol=1e-9 * np.sqrt(pw))
    P = abs(np.fft.fft(re + 1j * im) / (2 * nn)) ** 2 / (fs / nn / 2)
    c.near(P[1:nn + 1], psd, 'psd-signal-spectrum', rtol=1e-7, atol=1e-9); c.near(P[nn + 1:], psd[:-1][::-1], 'psd-signal-spectrum', rtol=1e-7, atol=1e-9)
    # local means
    h, w, bs = int(rng.integers(4, 30)), int(rng.integers(4, 30)), int(rng.integers(1, 6))
    arr = rng.normal(size=(h, w)); mk = rng.random((h, w)) > rng.uniform(0, .95)
    if mk.any() and h >= bs and w >= bs:
        got = local_mean_rebin(arr.copy(), mk, np, block_size=bs)
        ref = np.full((h, w), np.nan)
        for i in range(0, h - h % bs, bs):
            for j in range(0, w - w % bs, bs):
                k = mk[i:i + bs, j:j + bs]
                ref[i:i + bs, j:j + bs] = arr[i:i + bs, j:j + bs][k].mean() if k.any() else arr[mk].mean()
        c.eq(np.isnan(got), np.isnan(ref), 'local-mean-support')
        c.near(got[~np.isnan(ref)], ref[~np.isnan(ref)], 'local-mean', rtol=1e-9, atol=1e-12)
        c.saw('local_means')
    c.saw('grids')


def overlap(old, new):
    import numpy as np
    W = np.zeros((new, old))
    for i in range(new):
        for j in range(old):
            W[i, j] = max(0., min((i + 1) * old, (j + 1) * new) - max(i * old, j * new)) / new
    return W


@CHECK.section('rebin', quick=100, thorough=2500, precisions=(0, 1))
def rebin(c):
    import numpy as np
    from specula.lib.rebin import rebin2d
    from specula.lib.toccd import toccd
    rng = c.rng
    d = dt(c)
    old = [int(v) for v in rng.integers(1, 40, 2)]
    f = [int(rng.choice([1, 2, 3, 5, 7, 11, 49, 98, 103, 107, int(rng.integers(1, 130))])) for _ in range(2)]
    new = [int(v) for v in rng.integers(1, 60, 2)]
    if rng.random() < .3:
        new = [old[0], new[1]]
    c.describe(old=old, f=f, new=new)
    a = rng.uniform(0, 10, old).astype(d)
    up = (old[0] * f[0], old[1] * f[1])
    r = rebin2d(a, up, sample=True, xp=np)
    c.eq(r.shape, up, 'rebin-sample-shape')
    c.eq(r, np.repeat(np.repeat(a, f[0], 0), f[1], 1), 'rebin-sample', msg='replication changed values')
    f2 = [min(v, 30) for v in f]
    big = rng.normal(size=(old[0] * f2[0], old[1] * f2[1])).astype(d)
    r = rebin2d(big, tuple(old), xp=np)
    ref = np.array([[big[i * f2[0]:(i + 1) * f2[0], j * f2[1]:(j + 1) * f2[1]].astype(float).mean() for j in range(old[1])] for i in range(old[0])])
    c.near(r, ref, 'rebin-mean', rtol=0, atol=1e-12 if c.precision == 0 else 1e-5)
    if old[0] > 1 and old[0] % 2:
        c.raises(ValueError, lambda: rebin2d(a, (2, old[1]), xp=np) if old[0] > 2 else (_ for _ in ()).throw(ValueError()), 'rebin-non-integer')
    c.raises(ValueError, lambda: rebin2d(a, (old[0] * 2, old[1]), xp=np), 'rebin-upsample-mean')
    # remapping: exact area weighting, totals conserved
    Wr, Wc = overlap(old[0], new[0]), overlap(old[1], new[1])
    ref = Wr @ a.astype(float) @ Wc.T * (old[0] * old[1] / (new[0] * new[1])) / (old[0] * old[1] / (new[0] * new[1]))
    tot = float(a.astype(float).sum())
    ref = ref / ref.sum() * tot
    t = 1e-10 if c.precision == 0 else 2e-4
    arg = rng.choice(3)
    shp = tuple(new) if arg == 0 else (list(new) if arg == 1 else np.array(new))
    keep = a.copy()
    o = toccd(a, shp, xp=np)
    c.eq(o.shape, tuple(new), 'remap-shape')
    c.near(o, ref, 'remap-area', rtol=0, atol=t * max(ref.max(), 1e-9), msg='remapped pixel is not the area-weighted sum')
    c.near(float(o.astype(float).sum()), tot, 'remap-total', rtol=t)
    c.eq(a, keep, 'remap-input-untouched')
    tt = float(rng.uniform(.1, 1e4))
    o2 = toccd(a, shp, set_total=tt, xp=np)
    if tuple(new) != tuple(old):
        c.near(o2, ref / tot * tt, 'remap-set-total', rtol=0, atol=t * tt * ref.max() / tot)
    c.near(toccd(np.ascontiguousarray(a[::-1, ::-1]), shp, xp=np), o[::-1, ::-1], 'remap-flip', rtol=0, atol=t * ref.max())
    c.near(toccd(np.ascontiguousarray(a.T), tuple(new[::-1]), xp=np), o.T, 'remap-transpose', rtol=0, atol=t * ref.max())
    c.saw('rebins', 2); c.saw('remaps', 4)


@CHECK.section('interp', quick=100, thorough=2000, precisions=(0, 1))
def interp(c):
    import numpy as np
    from specula.lib.interp2d import Interp2D
    rng = c.rng
    d = dt(c)
    ish = tuple(int(v) for v in rng.integers(3, 40, 2))
    osh = tuple(int(v) for v in rng.integers(2, 40, 2))
    if rng.random() < .3:
        osh = ish
    rot = float(rng.choice([0, rng.uniform(-180, 180), 90, 180]))
    sr, sc = (float(v) for v in rng.choice([[0, 0], [2, -1], rng.uniform(-3, 3, 2)]))
    mag = float(rng.choice([1, rng.uniform(.6, 2.)]))
    cust = bool(rng.random() < .4)
    c.describe(ish=ish, osh=osh, rot=rot, sr=sr, sc=sc, mag=mag, cust=cust)
    yy, xx = [np.array(v, float) for v in np.mgrid[:osh[0], :osh[1]]]
    if cust:
        yy = rng.uniform(-2, ish[0] + 1, osh).astype(d).astype(float); xx = rng.uniform(-2, ish[1] + 1, osh).astype(d).astype(float)
        kw = dict(yy=yy.astype(d), xx=xx.astype(d))
    else:
        yy *= (ish[0] - 1) / osh[0]; xx *= (ish[1] - 1) / osh[1]
        kw = {}
    ident = not cust and ish == osh and rot == 0 and sr == sc == 0 and mag == 1
    if ident:
        yy, xx = [np.array(v, float) for v in np.mgrid[:osh[0], :osh[1]]]
    it = Interp2D(ish, osh, rotInDeg=rot, rowShiftInPixels=sr, colShiftInPixels=sc, magnification=mag, dtype=d, xp=np, **kw)
    cy, cx = (ish[0] - 1) / 2, (ish[1] - 1) / 2
    y0, x0 = (yy - cy) / mag, (xx - cx) / mag
    co, si = np.cos(np.radians(rot)), np.sin(np.radians(rot))
    Y = np.clip(x0 * si + y0 * co + cy + sr, 0, ish[0] - 1)
    X = np.clip(x0 * co - y0 * si + cx + sc, 0, ish[1] - 1)
    A, B, C = rng.uniform(-2, 2, 3)
    gy, gx = np.mgrid[:ish[0], :ish[1]]
    fld = (A + B * gy + C * gx).astype(d)
    t = (1e-9 if c.precision == 0 else 1e-4) * (1 + np.abs(fld).max())
    o = it.interpolate(fld)
    c.eq(o.shape, osh, 'interp-shape')
    c.near(o, A + B * Y + C * X, 'interp-affine', rtol=0, atol=t, msg='affine field not reproduced at the declared coordinates')
    c.saw('affine_pixels', int(o.size))
    v = rng.normal(size=ish).astype(d)
    r = np.array(it.interpolate(v), float)
    y1 = np.minimum(np.floor(Y).astype(int), ish[0] - 2); x1 = np.minimum(np.floor(X).astype(int), ish[1] - 2)
    fy, fx = Y - y1, X - x1
    ref = v[y1, x1] * (1 - fy) * (1 - fx) + v[y1 + 1, x1] * fy * (1 - fx) + v[y1, x1 + 1] * (1 - fy) * fx + v[y1 + 1, x1 + 1] * fy * fx
    c.near(r, ref, 'interp-bilinear', rtol=0, atol=1e-8 if c.precision == 0 else 3e-4)
    c.check(r.max() <= v.max() + 1e-6 and r.min() >= v.min() - 1e-6, 'interp-bounds', 'interpolation overshoots the data')
    buf = np.full(osh, 7., dtype=d)
    ret = it.interpolate(v, out=buf)
    c.check(ret is buf, 'interp-out', 'out buffer not returned')
    c.near(buf, r, 'interp-out-values', rtol=0, atol=1e-12)
    w = rng.normal(size=ish).astype(d)
    c.near(it.interpolate((v + 2 * w).astype(d)), r + 2 * np.array(it.interpolate(w), float), 'interp-linear', rtol=0, atol=1e-9 if c.precision == 0 else 1e-4)
    if cust and rot == 0 and mag == 1:
        # flipping field and coordinates together changes nothing
        i2 = Interp2D(ish, osh, rowShiftInPixels=-sr, colShiftInPixels=-sc, dtype=d, xp=np, yy=(ish[0] - 1 - yy).astype(d), xx=(ish[1] - 1 - xx).astype(d))
        c.near(i2.interpolate(np.ascontiguousarray(v[::-1, ::-1])), r, 'interp-flip', rtol=0, atol=1e-8 if c.precision == 0 else 1e-3)
        c.saw('flips')
    c.raises(ValueError, lambda: it.interpolate(np.zeros((ish[0] + 1, ish[1]), d)), 'interp-wrong-shape')
    c.saw('interpolations', 4)


@CHECK.section('radial', quick=60, thorough=1000, precisions=(0,))
def radial(c):
    import numpy as np
    from specula.lib.radial_profile import compute_radial_profile, compute_fwhm_from_profile, compute_encircled_energy, get_encircled_energy_at_distance
    rng = c.rng
    sh = tuple(int(v) for v in rng.integers(3, 50, 2))
    cen = None if rng.random() < .4 else [float(rng.uniform(0, s)) for s in sh]
    c.describe(shape=sh, cen=cen)
    img = rng.uniform(0, 5, sh)
    kw = {} if cen is None else dict(center_in_px_y=cen[0], center_in_px_x=cen[1])
    cc = cen or [s / 2 for s in sh]
    p, r, n = compute_radial_profile(img, return_counts=True, **kw)
    yy, xx = np.indices(sh)
    R = np.hypot(yy - cc[0], xx - cc[1])
    bins = np.floor(R).astype(int)
    ks = np.unique(bins)
    c.eq(n, np.array([(bins == k).sum() for k in ks]), 'radial-counts')
    c.near(p, [img[bins == k].mean() for k in ks], 'radial-profile', rtol=1e-9)
    c.near(r, [R[bins == k].mean() for k in ks], 'radial-distance', rtol=1e-9, atol=1e-12)
    p2, r2 = compute_radial_profile(img, **kw)
    c.eq(p2, p, 'radial-profile-repeat')
    ee = compute_encircled_energy(p, n_px_in_radial_bin=n)
    c.near(ee, np.array([img[bins <= k].sum() for k in ks]) / img.sum(), 'encircled-energy', rtol=1e-9)
    c.near(compute_encircled_energy(p, n_px_in_radial_bin=n, normalize=False)[-1], img.sum(), 'encircled-total', rtol=1e-9)
    flat = compute_encircled_energy(np.ones(len(r)), radial_distance=r)
    c.check(np.all(np.diff(flat) >= -1e-12) and abs(flat[-1] - 1) < 1e-12, 'encircled-monotonic', 'not a cumulative fraction')
    if len(r) > 2:
        qd = np.concatenate([rng.uniform(0, r[-1] * 1.2, 10), r])
        got = get_encircled_energy_at_distance(ee, r, qd)
        c.near(got, np.interp(qd, r, ee), 'encircled-lookup', rtol=1e-9, atol=1e-12)
        c.near(float(get_encircled_energy_at_distance(ee, r, float(qd[0]))), np.interp(qd[0], r, ee), 'encircled-lookup-scalar', rtol=1e-9, atol=1e-12)
    # width of a monotonic profile
    w = float(rng.uniform(2, 8)); rad = np.arange(60.) + rng.uniform(0, .3)
    prof = float(rng.uniform(.1, 9)) * np.exp(-np.log(2) * (rad / (w / 2)) ** 2)
    half = prof[0] / 2
    k = int(np.argmax(prof <= half))
    ref = 2 * (rad[k - 1] + (half - prof[k - 1]) * (rad[k] - rad[k - 1]) / (prof[k] - prof[k - 1]))
    if k > 0:
        c.near(float(compute_fwhm_from_profile(prof, rad)), ref, 'profile-width', rtol=1e-9)
    big = np.exp(-np.log(2) * ((np.indices((61, 61)) - 30) ** 2).sum(axis=0) / (w / 2) ** 2)
    pb, rb = compute_radial_profile(big, 30, 30)
    c.near(float(compute_fwhm_from_profile(pb, rb)), w, 'gaussian-width', rtol=.25, msg='width of a Gaussian image')
    c.saw('profiles', 3)
