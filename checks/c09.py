"""C09: saved data objects are restored identical."""
from harness.vf import CheckDef
CHECK = CheckDef('C09', rule=(
    'Random instances of every savable data object (random sizes, contents, optional metadata) are saved, restored and compared through an observation '
    'function made of their public arrays, metadata and the results of their operations; the restored object is saved again and both files compared; the '
    'restored object then behaves identically under the same random mutation. Objects created in another precision are restored with only a rounding of '
    'values. Non-trivial: at least one array or metadata item compared; distinct by class and configuration.'),
    assumptions=['header numbers are compared to 1e-13 relative (decimal FITS cards)', 'Recmat.modes2recLayer is documented as not used and not compared',
                 'verbosity, description strings and runtime caches are not part of an object\'s saved state'])


def gens():
    """{class name: (generator(rng, prec) -> object, observer(o) -> dict)}"""
    import numpy as np
    from harness import sp
    from specula.base_value import BaseValue
    from specula.data_objects import (electric_field, layer, pupilstop, pixels, slopes, intensity, ifunc, ifunc_inv, m2c, intmat, recmat, pupdata, subap_data,
                                      source, laser_launch_telescope, lenslet, time_history, spatio_temp_array, iir_filter_data, ssr_filter_data)

    def arrs(rng, shape, dt=None):
        return rng.normal(size=shape) * 10 ** rng.uniform(-3, 3)

    def num(rng):
        return float(sp.pick(rng, [0.0, 1.0, -2.5, float(rng.normal()), float(rng.normal() * 1e-9), float(rng.normal() * 1e7), float(rng.integers(100))]))

    def pos(rng):
        return float(10 ** rng.uniform(-3, 3))

    def tag(rng):
        return str(sp.pick(rng, ['', 'abc', 'pup_12.x', 'A' * 40]))

    def g_ef(rng, p):
        o = electric_field.ElectricField(int(rng.integers(1, 9)), int(rng.integers(1, 9)), pos(rng), S0=abs(num(rng)), precision=p)
        o.field = arrs(rng, o.field.shape).astype(o.dtype)
        o.A = np.abs(o.A)
        return o

    def o_ef(o):
        return dict(field=o.field, A=o.A, ph=o.phaseInNm, pitch=o.pixel_pitch, S0=o.S0, size=o.size, phi=o.phi_at_lambda(500), ef=o.ef_at_lambda(777.0),
                    sq=o.square_modulus(1e5), area=o.area(), marea=o.masked_area(), value=o.get_value())

    def g_layer(rng, p):
        o = layer.Layer(int(rng.integers(1, 9)), int(rng.integers(1, 9)), pos(rng), abs(num(rng)), shiftXYinPixel=(num(rng), num(rng)),
                        rotInDeg=num(rng), magnification=pos(rng), precision=p)
        o.field = arrs(rng, o.field.shape).astype(o.dtype)
        return o

    def o_layer(o):
        d = o_ef(o)
        d.pop('S0')
        d.update(h=o.height, sh=o.shiftXYinPixel, rot=o.rotInDeg, mag=o.magnification)
        return d

    def g_stop(rng, p):
        n = int(rng.integers(2, 20))
        pr = sp.simul_params(pixel_pupil=n, pixel_pitch=pos(rng))
        m = None if rng.random() < 0.4 else (rng.random((n, n)) if rng.random() < 0.5 else (rng.random((n, n)) > 0.4).astype(float))
        return pupilstop.Pupilstop(pr, input_mask=m, mask_diam=float(rng.uniform(0.5, 1)), obs_diam=sp.pick(rng, [None, 0.0, 0.3]),
                                   shiftXYinPixel=(num(rng), num(rng)), rotInDeg=num(rng), magnification=pos(rng), precision=p)

    def o_stop(o):
        return dict(o_layer(o), pp=o.pixel_pupil, gt=o.generation_time)

    def g_pix(rng, p):
        bits, signed = int(rng.integers(1, 65)), int(rng.integers(2))
        o = pixels.Pixels(int(rng.integers(1, 9)), int(rng.integers(1, 9)), bits=bits, signed=signed, precision=p)
        hi = 2 ** min(bits - signed, 20)
        o.set_value(rng.integers(-hi * signed, hi, o.pixels.shape).astype(o.dtype))
        return o

    def o_pix(o):
        return dict(p=o.pixels, bpp=o.bpp, by=o.bytespp, s=o.signed, t=str(np.dtype(o.type)), size=o.size)

    def g_slopes(rng, p):
        n = int(rng.integers(1, 12)) * 2
        o = slopes.Slopes(slopes=arrs(rng, n), interleave=bool(rng.integers(2)), precision=p)
        if rng.random() < 0.6:
            o.pupdata_tag = sp.pick(rng, [None, 'p1'])
            o.subapdata_tag = sp.pick(rng, [None, 's1'])
        return o

    def o_slopes(o):
        return dict(s=o.slopes, x=o.xslopes, y=o.yslopes, il=o.interleave, ix=o.indx(), iy=o.indy(), size=o.size, pt=o.pupdata_tag, st=o.subapdata_tag)

    def g_int(rng, p):
        o = intensity.Intensity(int(rng.integers(1, 9)), int(rng.integers(1, 9)), precision=p)
        o.set_value(np.abs(arrs(rng, o.i.shape)).astype(o.dtype))
        return o

    def mask(rng):
        n = int(rng.integers(2, 8))
        m = rng.random((n, n)) < 0.7
        m[0, 0] = True
        return m

    def g_ifunc(rng, p):
        m = mask(rng)
        o = ifunc.IFunc(ifunc=arrs(rng, (int(rng.integers(1, 7)), int(m.sum()))), mask=m.astype(sp.pick(rng, [float, np.uint8])), precision=p)
        if rng.random() < 0.4:
            o.cut(start_mode=0, nmodes=int(rng.integers(1, o.size[0] + 1)))
        return o

    def o_ifunc(o):
        return dict(f=o.influence_function, m=np.array(o.mask_inf_func) > 0, i0=o.idx_inf_func[0], i1=o.idx_inf_func[1], size=o.size, v=o.get_value(), c=o.ifunc_2d_to_3d(normalize=False),
                    kind=np.dtype(o.type).kind)

    def g_ifi(rng, p):
        m = mask(rng)
        return ifunc_inv.IFuncInv(arrs(rng, (int(m.sum()), int(rng.integers(1, 7)))).astype(np.float64 if p == 0 else np.float32), m.astype(float), precision=p)

    def o_ifi(o):
        return dict(f=o.ifunc_inv, m=np.array(o.mask_inf_func) > 0, i0=o.idx_inf_func[0], i1=o.idx_inf_func[1], size=o.size)

    def g_m2c(rng, p):
        return m2c.M2C(arrs(rng, (int(rng.integers(1, 8)), int(rng.integers(1, 8)))), norm_factor=sp.pick(rng, [None, 0.0, 2.5, num(rng)]), precision=p)

    def o_m2c(o):
        return dict(m=o.m2c, n=o.nmodes, nf=o.norm_factor)

    def g_im(rng, p):
        ns, nm = int(rng.integers(1, 9)), int(rng.integers(1, 9))
        dt = np.float64 if p == 0 else np.float32
        kw = {}
        r = rng.random()
        if r < 0.4:
            kw = dict(slope_mm=rng.normal(size=(nm, 2)).astype(dt), slope_rms=rng.random(nm).astype(dt))
        elif r < 0.6:
            kw = dict(slope_mm=rng.normal(size=(nm, 2)).astype(dt))
        elif r < 0.75:
            kw = dict(slope_rms=rng.random(nm).astype(dt))
        return intmat.Intmat(arrs(rng, (ns, nm)).astype(dt), pupdata_tag=tag(rng), subapdata_tag=tag(rng), norm_factor=num(rng), precision=p, **kw)

    def o_im(o):
        return dict(m=o.intmat, mm=o.slope_mm, rms=o.slope_rms, pt=o.pupdata_tag, st=o.subapdata_tag, nf=o.norm_factor, n=o.nmodes, ns=o.nslopes,
                    col=o.modes[0], row=o.slopes[0], rec=o.generate_rec().recmat)

    def g_rec(rng, p):
        dt = np.float64 if p == 0 else np.float32
        return recmat.Recmat(arrs(rng, (int(rng.integers(1, 9)), int(rng.integers(1, 9)))).astype(dt), norm_factor=num(rng), precision=p)

    def o_rec(o):
        return dict(m=o.recmat, nf=o.norm_factor, n=o.nmodes)

    def g_pup(rng, p):
        n, npup = int(rng.integers(1, 7)), int(sp.pick(rng, [1, 2, 3, 4, 4, 4]))
        fs = [int(2 * rng.integers(4, 9)), int(2 * rng.integers(4, 9))]
        idx = rng.choice(fs[0] * fs[1], n * npup, replace=False).reshape(n, npup)
        o = pupdata.PupData(ind_pup=idx, radius=rng.uniform(1, 5, npup), cx=rng.uniform(0, 9, npup), cy=rng.uniform(0, 9, npup), framesize=fs, precision=p)
        if rng.random() < 0.4:
            o.set_slopes_from_intensity(True)
        return o

    def o_pup(o):
        return dict(i=o.ind_pup, r=o.radius, cx=o.cx, cy=o.cy, fs=o.framesize, n=o.n_subap, npu=o.n_pupils, sm=o.single_mask(), cm=o.complete_mask(), dm=o.display_map,
                    z=o.zcorrection(o.ind_pup), sfi=o.slopes_from_intensity)

    def g_sub(rng, p):
        nx, ny = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        k = int(rng.integers(1, nx * ny + 1))
        side = int(rng.integers(1, 5))
        return subap_data.SubapData(idxs=rng.integers(0, 1000, (k, side * side)), display_map=np.sort(rng.choice(nx * ny, k, replace=False)), nx=nx, ny=ny,
                                    energy_th=float(rng.uniform(0, 1)), precision=p)

    def o_sub(o):
        return dict(i=o.idxs, dm=o.display_map, nx=o.nx, ny=o.ny, e=o.energy_th, n=o.n_subaps, s=o.np_sub, m=o.single_mask(), i0=o.subap_idx(0), d0=o.display_map_idx(0))

    def g_src(rng, p):
        return source.Source([float(rng.uniform(0, 100)), float(rng.uniform(-360, 360))], float(rng.uniform(-5, 25)), float(rng.uniform(300, 5000)),
                             height=float(sp.pick(rng, [np.inf, 90e3, float(rng.uniform(1e3, 1e6))])), band=str(sp.pick(rng, ['', 'R', 'K'])),
                             zero_point=float(sp.pick(rng, [0, 1e9])), error_coord=tuple(sp.pick(rng, [(0., 0.), (0.5, -1.0)])), precision=p)

    def o_src(o):
        d = dict(pc=o.polar_coordinates, r=o.r, phi=o.phi, ra=o.r_arcsec, pd=o.phi_deg, m=o.magnitude, w=o.wavelengthInNm, h=o.height, b=o.band, z=o.zero_point,
                 e=list(o.error_coord), flux=o.phot_density())
        if np.isfinite(o.height):
            d.update(x=o.x_coord, y=o.y_coord)
        return d

    def g_llt(rng, p):
        return laser_launch_telescope.LaserLaunchTelescope(sp.simul_params(zenithAngleInDeg=float(sp.pick(rng, [0.0, 30.0, float(rng.uniform(0, 60))]))), spot_size=abs(num(rng)),
                                                           tel_position=sp.pick(rng, [[], [num(rng), num(rng), num(rng)]]), beacon_focus=float(rng.uniform(8e4, 1e5)),
                                                           beacon_tt=[num(rng), num(rng)], precision=p)

    def o_llt(o):
        return dict(s=o.spot_size, t=list(o.tel_pos), f=o.beacon_focus, tt=list(o.beacon_tt), am=o.airmass)

    def g_len(rng, p):
        return lenslet.Lenslet(int(rng.integers(1, 9)), precision=p)

    def o_len(o):
        return dict(n=o.n_lenses, dx=o.dimx, dy=o.dimy, l=np.array([[[float(z) for z in o.get(i, j)] for j in range(o.dimx)] for i in range(o.dimy)]))

    def g_bv(rng, p):
        k = int(rng.integers(6))
        v = [None, 0.0, num(rng), arrs(rng, int(rng.integers(1, 6))), arrs(rng, (2, 3, 2)), int(rng.integers(1000))][k]
        return BaseValue(value=v, precision=p)

    def o_bv(o):
        return dict(v=o.value, g=o.get_value(), k=None if o.value is None else np.asarray(o.value).dtype.kind)

    def g_th(rng, p):
        return time_history.TimeHistory(arrs(rng, sp.pick(rng, [(4,), (5, 3)])).astype(np.float64 if p == 0 else np.float32), precision=p)

    def g_sta(rng, p):
        nt = int(rng.integers(1, 6))
        sh = tuple(int(x) for x in rng.integers(1, 5, int(rng.integers(0, 3))))
        ax = int(sp.pick(rng, [0, -1]))
        dt = np.float64 if p == 0 else np.float32
        return spatio_temp_array.SpatioTempArray(arrs(rng, ((nt,) + sh) if ax == 0 else (sh + (nt,))).astype(dt), np.cumsum(rng.random(nt)), time_axis=ax, precision=p)

    def g_iir(rng, p):
        n, a, b = int(rng.integers(1, 5)), int(rng.integers(1, 5)), int(rng.integers(1, 5))
        on, od = rng.integers(1, a + 1, n), rng.integers(1, b + 1, n)
        nu, de = rng.normal(size=(n, a)), rng.normal(size=(n, b)) * 0.2
        for i in range(n):
            nu[i, on[i]:] = 0
            de[i, od[i]:] = 0
            de[i, od[i] - 1] = 1
        return iir_filter_data.IirFilterData(list(on), list(od), nu, de, precision=p)

    def o_iir(o):
        return dict(on=o.ordnum, od=o.ordden, n=o.num, d=o.den, nf=o.nfilter, g=o.gain)

    def g_ssr(rng, p):
        n = int(rng.integers(1, 4))
        st = [int(rng.integers(1, 4)) for _ in range(n)]
        return ssr_filter_data.SsrFilterData([rng.normal(size=(s, s)) * .3 for s in st], [rng.normal(size=(s, 1)) for s in st], [rng.normal(size=(1, s)) for s in st],
                                             [rng.normal(size=(1, 1)) for s in st], precision=p)

    def o_ssr(o):
        return dict(A=o.A, B=o.B, C=o.C, D=o.D, n=o.nfilter, s=o.total_states)
    return {
        'ElectricField': (g_ef, o_ef), 'Layer': (g_layer, o_layer), 'Pupilstop': (g_stop, o_stop), 'Pixels': (g_pix, o_pix), 'Slopes': (g_slopes, o_slopes),
        'Intensity': (g_int, lambda o: dict(i=o.i, v=o.get_value(), d=o.array_for_display())), 'IFunc': (g_ifunc, o_ifunc), 'IFuncInv': (g_ifi, o_ifi), 'M2C': (g_m2c, o_m2c),
        'Intmat': (g_im, o_im), 'Recmat': (g_rec, o_rec), 'PupData': (g_pup, o_pup), 'SubapData': (g_sub, o_sub), 'Source': (g_src, o_src), 'LaserLaunchTelescope': (g_llt, o_llt),
        'Lenslet': (g_len, o_len), 'BaseValue': (g_bv, o_bv), 'TimeHistory': (g_th, lambda o: dict(t=o.time_history, v=o.get_value())),
        'SpatioTempArray': (g_sta, lambda o: dict(a=o.array, t=o.time_vector, v=o.get_value(), tv=o.get_time_vector())), 'IirFilterData': (g_iir, o_iir), 'SsrFilterData': (g_ssr, o_ssr),
    }


def same(a, b, single):
    """None if equal up to decimal headers (and, when single, up to float32 rounding), else a description"""
    import numpy as np
    if a is None or b is None:
        return None if a is None and b is None else f'{str(a)[:60]} != {str(b)[:60]}'
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return None if np.shape(a) == np.shape(b) and a == b else f'{a!r} != {b!r}'
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return f'shape {x.shape} != {y.shape}'
    if x.dtype.kind in 'OU':
        return None if np.array_equal(x, y) else f'{x} != {y}'
    if x.dtype.kind in 'iub' and y.dtype.kind in 'iub':
        return None if np.array_equal(x, y) else f'{x.ravel()[:5]} != {y.ravel()[:5]}'
    rtol = 3e-5 if single else 1e-13
    sc = np.max(np.abs(x[np.isfinite(x)]), initial=0)
    atol = sc * (3e-6 if single else 1e-14)
    ok = np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True)
    return None if ok else f'{x.ravel()[:5]} != {y.ravel()[:5]}'


def fits_equal(f1, f2):
    from astropy.io import fits
    import numpy as np
    with fits.open(f1) as a, fits.open(f2) as b:
        if len(a) != len(b):
            return f'{len(a)} and {len(b)} extensions'
        for i, (x, y) in enumerate(zip(a, b)):
            ka = {k: v for k, v in x.header.items() if k not in ('COMMENT', 'HISTORY')}
            kb = {k: v for k, v in y.header.items() if k not in ('COMMENT', 'HISTORY')}
            if set(ka) != set(kb):
                return f'HDU {i} header keys {sorted(set(ka) ^ set(kb))}'
            for k in ka:
                if k.startswith('BITPIX'):
                    continue
                d = same(ka[k], kb[k], False)
                if d:
                    return f'HDU {i} {k}: {d}'
            if (x.data is None) != (y.data is None) or (x.data is not None and not np.allclose(x.data, y.data, rtol=1e-13, atol=0, equal_nan=True)):
                return f'HDU {i} data'
    return None


@CHECK.section('roundtrip', quick=800, thorough=20000, precisions=(0, 1), chunk=200)
def roundtrip(c):
    import os, importlib
    import numpy as np
    from harness import sp
    rng = c.rng
    G = gens()
    names = sorted(G)
    name = names[c.i % len(names)]
    gen, obs = G[name]
    cross = rng.random() < 0.25
    p = (1 - c.precision) if cross else c.precision
    with sp.quiet():
        o = gen(rng, p)
    cls = type(o)
    want = obs(o)
    c.describe(cls=name, prec=p, shapes={k: str(np.shape(v)) for k, v in want.items()}, h=str(list(want.values()))[:60])
    before = {k: np.array(v, copy=True) if isinstance(v, np.ndarray) else v for k, v in want.items()}
    fn = os.path.abspath(f'o_{c.i}.fits')
    single = cross or (c.precision == 1 and name in ('Source', 'LaserLaunchTelescope', 'Lenslet', 'Intmat', 'Recmat', 'IirFilterData', 'BaseValue'))
    with sp.quiet():
        o.save(fn)
    after = obs(o)
    for k in before:
        d = same(before[k], after[k], False)
        c.check(d is None, f'{name}:save-changed-object', f'{k}: {d}')
    with sp.quiet():
        r = cls.restore(fn)
    c.check(type(r) is cls, f'{name}:class', f'restored {type(r).__name__}')
    got = obs(r)
    for k in want:
        d = same(want[k], got[k], single)
        c.check(d is None, f'{name}:{k}', f'{name}.{k} saved/restored: {d}', cls=name)
        if not cross and isinstance(want[k], np.ndarray) and isinstance(got[k], np.ndarray) and want[k].dtype.kind == 'f':
            c.check(got[k].dtype.kind == 'f' and got[k].dtype.itemsize == want[k].dtype.itemsize, f'{name}:dtype-{k}', f'{name}.{k} {want[k].dtype} restored as {got[k].dtype}')
    c.saw('items_compared', len(want))
    c.saw('class_' + name)
    fn2 = os.path.abspath(f'o_{c.i}b.fits')
    with sp.quiet():
        r.save(fn2)
    if not cross:
        d = fits_equal(fn, fn2)
        c.check(d is None, f'{name}:second-save', f'saving the restored {name}: {d}')
    with sp.quiet():
        r2 = cls.restore(fn2)
    got2 = obs(r2)
    for k in want:
        d = same(got[k], got2[k], single)
        c.check(d is None, f'{name}:second-{k}', f'{name}.{k} second round trip: {d}')
    # the restored object is usable: value set in both behaves the same
    if hasattr(o, 'get_value') and hasattr(o, 'set_value') and name not in ('Source', 'LaserLaunchTelescope', 'Lenslet', 'IirFilterData', 'SsrFilterData'):
        v = o.get_value()
        if isinstance(v, np.ndarray) and v.dtype.kind == 'f':
            new = rng.normal(size=v.shape).astype(v.dtype)
            if name in ('Pixels',):
                new = np.round(new * 10)
            o.set_value(new.copy())
            r.set_value(new.copy())
            w, g = obs(o), obs(r)
            for k in w:
                d = same(w[k], g[k], True)
                c.check(d is None, f'{name}:after-set-{k}', f'{name}.{k} after the same set_value: {d}')
    os.remove(fn)
    os.remove(fn2)


@CHECK.section('misfile', quick=60, thorough=400, precisions=(0,), chunk=60)
def misfile(c):
    """a file of another class, or of an unknown version, is refused instead of being silently misread (where the class records its identity)"""
    import os
    from astropy.io import fits
    from harness import sp
    rng = c.rng
    G = gens()
    name = ['ElectricField', 'Layer', 'Intensity', 'M2C', 'Recmat', 'PupData', 'SubapData', 'Source', 'LaserLaunchTelescope', 'Lenslet', 'IirFilterData',
            'Pixels', 'Slopes', 'TimeHistory', 'SpatioTempArray', 'Pupilstop', 'SsrFilterData'][c.i % 17]
    with sp.quiet():
        o = G[name][0](rng, 0)
    fn = os.path.abspath(f'm_{c.i}.fits')
    o.save(fn)
    bad = int(sp.pick(rng, [0, 17, 99]))
    with fits.open(fn, mode='update') as h:
        h[0].header['VERSION'] = bad
    c.describe(cls=name, version=bad, i=c.i)

    def go():
        with sp.quiet():
            type(o).restore(fn)
    c.raises(ValueError, go, f'misfile:{name}-unknown-version-accepted')
    c.saw('refusals')
    os.remove(fn)
