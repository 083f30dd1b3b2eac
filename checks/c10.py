"""C10: copies and array exports are faithful and independent."""
from harness.vf import CheckDef
CHECK = CheckDef('C10', rule=(
    'group: groups of same-shaped data objects of every class undergo random sequences of transfer/set/modify/pickle operations; after each operation every '
    'object of the group is compared with its own shadow copy (value semantics). arrays: array conversions over all numeric types, containers, requested types '
    'and copy flags. field: sub-fields, products, wavelength fields, display frames of electric fields against plain numpy. Non-trivial: at least one '
    'comparison after an operation; distinct by configuration.'),
    assumptions=['no GPU here: transfers are CPU to CPU', 'transferDataTo moves arrays and the generation time, not scalar metadata (its documentation)'])


def _c09():
    import importlib
    return importlib.import_module('checks.c09')


NAMES = ['ElectricField', 'Layer', 'Pupilstop', 'Pixels', 'Slopes', 'Intensity', 'IFunc', 'IFuncInv', 'M2C', 'Intmat', 'Recmat', 'PupData', 'SubapData', 'BaseValue', 'TimeHistory', 'SpatioTempArray',
         'IirFilterData', 'SsrFilterData']


# classes that are outputs of processing objects, hence travel between processes (other data objects are built by every process)
WIRE = ['ElectricField', 'Layer', 'Pixels', 'Slopes', 'Intensity', 'BaseValue', 'Intmat', 'Recmat', 'SubapData', 'PupData']


def arrays_of(o):
    """public and private numpy arrays held by a data object"""
    import numpy as np
    return {k: v for k, v in vars(o).items() if type(v) is np.ndarray}


def shadow(o):
    import numpy as np
    return {k: v.copy() for k, v in arrays_of(o).items()}, o.generation_time


def diff(o, sh):
    import numpy as np
    cur, t = arrays_of(o), o.generation_time
    if t != sh[1]:
        return f'generation_time {t} expected {sh[1]}'
    for k, v in sh[0].items():
        if k not in cur:
            return f'{k} is no longer an array'
        if cur[k].shape != v.shape or cur[k].dtype != v.dtype or not np.array_equal(cur[k], v, equal_nan=v.dtype.kind in 'fc'):
            return f'{k}: {cur[k].ravel()[:4]} ({cur[k].dtype}, {cur[k].shape}) expected {v.ravel()[:4]} ({v.dtype}, {v.shape})'
    return None


def scramble(rng, o):
    for k, v in arrays_of(o).items():
        if not v.flags.writeable:
            continue
        if v.dtype.kind == 'f':
            v[...] = rng.normal(size=v.shape) * 10
        elif v.dtype.kind in 'iu' and v.size:
            v[...] = rng.integers(0, 5, v.shape)


@CHECK.section('group', quick=360, thorough=9000, precisions=(0, 1), chunk=90)
def group(c):
    import pickle
    import numpy as np
    from harness import sp
    rng = c.rng
    G = _c09().gens()
    name = NAMES[c.i % len(NAMES)]
    seed = int(rng.integers(1 << 30))
    n = int(rng.integers(2, 5))
    objs = []
    with sp.quiet():
        for k in range(n):
            objs.append(G[name][0](np.random.default_rng(seed), c.precision))
    for k, o in enumerate(objs):
        if k:
            scramble(rng, o)
        o.generation_time = int(rng.integers(0, 1000))
    # objects of a class built from the same arguments must not share memory with each other (they were built from separate arrays)
    # some destinations start without an array
    hole = None
    if name == 'Slopes':
        objs[0].single_mask = np.ones((3, 3))
        objs[0].display_map = np.arange(3)
        hole = 1
    if name == 'BaseValue' and type(objs[0].value) is np.ndarray:
        objs[1].value = None
        hole = 1
    sh = [shadow(o) for o in objs]
    hist = []
    nops = int(rng.integers(4, 14))
    setters = hasattr(objs[0], 'set_value') and name not in ('IirFilterData', 'SsrFilterData')
    for _ in range(nops):
        op = str(sp.pick(rng, ['transfer', 'modify', 'getset', 'pickle', 'copyself', 'scalar', 'read']))
        a, b = rng.choice(n, 2, replace=False)
        a, b = int(a), int(b)
        if hist == [] and hole is not None:
            op, a, b = 'transfer', 0, 1
        if op == 'transfer':
            with sp.quiet():
                objs[a].transferDataTo(objs[b])
            # arrays of the source are copied into the destination, keeping the destination's own type where it had one
            new = dict(sh[b][0])
            for k, v in sh[a][0].items():
                if k in new and new[k].shape == v.shape:
                    new[k] = v.astype(new[k].dtype)
                else:
                    new[k] = v.copy()
            sh[b] = (new, sh[a][1])
        elif op == 'modify':
            scramble(rng, objs[a])
            objs[a].generation_time = int(rng.integers(1000))
            sh[a] = shadow(objs[a])
        elif op == 'getset' and setters:
            v = objs[a].get_value()
            if v is None or objs[b].get_value() is None or np.shape(v) != np.shape(objs[b].get_value()):
                continue
            keys = [k for k, x in arrays_of(objs[b]).items() if isinstance(v, np.ndarray) and (x is objs[b].get_value() or np.shares_memory(x, objs[b].get_value()))]
            objs[b].set_value(v)
            w = objs[b].get_value()
            c.check(np.array_equal(np.asarray(w), np.asarray(v).astype(np.asarray(w).dtype)), f'{name}:set-value', f'set_value(get_value()) of {name} gives {np.ravel(w)[:4]} expected {np.ravel(v)[:4]}')
            new = shadow(objs[b])
            for k in sh[b][0]:
                if k not in keys:
                    c.check(np.array_equal(new[0][k], sh[b][0][k]), f'{name}:set-value-other', f'set_value changed {k}')
            sh[b] = (new[0], sh[b][1])
        elif op == 'pickle' and name in WIRE:
            keep, objs[a].xp = objs[a].xp, 0        # what the inter-process sends do with the array module
            try:
                r = pickle.loads(pickle.dumps(objs[a]))
            finally:
                objs[a].xp = keep
            r.xp = np
            d = diff(r, sh[a])
            c.check(d is None, f'{name}:pickle', f'pickled {name}: {d}')
            scramble(rng, r)
        elif op == 'copyself':
            r = objs[a].copyTo(objs[a].target_device_idx)
            d = diff(r, sh[a])
            c.check(d is None, f'{name}:copyTo', f'copyTo: {d}')
        elif op == 'read':
            for m in ('get_value', 'array_for_display', 'get_fits_header'):
                if hasattr(objs[a], m) and not (m == 'array_for_display' and name == 'Slopes') and name not in ('IirFilterData', 'SsrFilterData'):
                    getattr(objs[a], m)()
        hist.append((op, a, b))
        for k, o in enumerate(objs):
            d = diff(o, sh[k])
            if not c.check(d is None, f'{name}:after-{op}', f'{name} object {k} after {hist[-3:]}: {d}'):
                return
        c.saw('operations')
    c.describe(cls=name, n=n, ops=str(hist))
    # wrongly shaped values are refused
    if setters and name not in ('BaseValue', 'TimeHistory', 'PupData') and hasattr(objs[0], 'get_value'):
        v = objs[0].get_value()
        if v.ndim >= 1:
            bad = np.zeros(tuple(s + 1 for s in v.shape), dtype=v.dtype)
            c.raises((AssertionError, ValueError), lambda: objs[0].set_value(bad), f'{name}:bad-shape-accepted')


@CHECK.section('arrays', quick=300, thorough=6000, precisions=(0, 1), chunk=150)
def arrays(c):
    import numpy as np
    import specula
    from harness import sp
    from specula.base_value import BaseValue
    from specula.base_data_obj import BaseDataObj
    rng = c.rng
    dts = [np.bool_, np.uint8, np.int16, np.int32, np.int64, np.uint64, np.float32, np.float64, np.complex64, np.complex128]
    dt = np.dtype(sp.pick(rng, dts))
    shape = tuple(int(x) for x in rng.integers(0, 4, int(rng.integers(0, 4))))
    base = rng.integers(0, 2, shape) if dt == bool else rng.integers(0, 100, shape) if dt.kind in 'iu' else (rng.normal(size=shape) + (1j * rng.normal(size=shape) if dt.kind == 'c' else 0))
    v = np.asarray(base).astype(dt)
    layout = int(rng.integers(4))
    if layout == 1 and v.ndim > 1:
        v = np.asfortranarray(v)
    elif layout == 2 and v.ndim:
        v = np.repeat(v, 2, axis=0)[::2]
    elif layout == 3:
        v = v.astype(dt.newbyteorder('>'))
    src = v if rng.random() < 0.7 else v.tolist()
    req = sp.pick(rng, [None, None, np.float32, np.float64, int, np.complex64])
    if req is not None and v.dtype.kind == 'c' and np.dtype(req).kind != 'c':
        req = None
    fc = bool(rng.integers(2))
    c.describe(dt=str(dt), shape=str(shape), req=str(req), fc=fc, lst=src is not v, layout=layout)
    ref = v.copy()
    obj = BaseDataObj(target_device_idx=-1, precision=c.precision)
    for which in ('to_xp', 'cpuArray', 'method'):
        if which == 'to_xp':
            r = specula.to_xp(np, src, dtype=req, force_copy=fc)
        elif which == 'cpuArray':
            r = specula.cpuArray(src, dtype=req, force_copy=fc)
        else:
            r = obj.to_xp(src, dtype=req, force_copy=fc)
        want = np.asarray(src) if req is None else np.asarray(src).astype(req)
        c.check(type(r) is np.ndarray, f'{which}:type', f'{type(r)}')
        c.check(r.shape == want.shape and np.array_equal(r, want), f'{which}:values', f'{r.ravel()[:4]} expected {want.ravel()[:4]}')
        wd = want.dtype
        c.check(r.dtype == wd or (r.dtype.kind == wd.kind and r.dtype.itemsize == wd.itemsize), f'{which}:dtype', f'{which} of {np.asarray(src).dtype} with dtype={req}, force_copy={fc} gives {r.dtype}')
        if fc and src is v:
            c.check(not np.shares_memory(r, v), f'{which}:not-copied', 'force_copy=True shares memory with the original')
            if r.size and r.flags.writeable:
                r[...] = 0
        c.check(np.array_equal(v, ref), f'{which}:source-changed', 'the converted array changed')
        c.saw('conversions')
    # BaseValue copies at construction and casts to its own precision
    if dt.kind == 'f' and v.ndim:
        p = int(rng.integers(2))
        x = v.copy()
        b = BaseValue(value=x, precision=p, target_device_idx=-1)
        td = np.float64 if p == 0 else np.float32
        c.check(b.value.dtype == td and np.array_equal(b.value, v.astype(td)), 'BaseValue:construct', f'{b.value.dtype}')
        if x.size:
            x[...] = 7
            c.check(np.array_equal(b.value, v.astype(td)), 'BaseValue:construct-alias', 'the value changed with the array given to the constructor')
            y = np.full(v.shape, 3.0)
            b.set_value(y)
            y[...] = 5
            c.check(b.value.dtype == td and np.array_equal(b.value, np.full(v.shape, 3.0)), 'BaseValue:set', f'{b.value}')
            e = BaseValue(precision=p, target_device_idx=-1)
            y = v.copy()
            e.set_value(y)
            y[...] = 9
            c.check(e.value.dtype == td and np.array_equal(e.value, v.astype(td)), 'BaseValue:set-on-empty', f'{e.value}')
    s = float(rng.normal())
    p = int(rng.integers(2))
    b = BaseValue(value=s, precision=p, target_device_idx=-1)
    td = np.float64 if p == 0 else np.float32
    c.check(b.value == td(s) and np.isscalar(b.value), 'BaseValue:scalar', f'{b.value!r} from {s}')
    b.set_value(s + 1)
    c.check(b.value == td(s + 1) and type(b.value) is td, 'BaseValue:scalar-set', f'{b.value!r}')


@CHECK.section('field', quick=200, thorough=4000, precisions=(0, 1), chunk=100)
def field(c):
    import numpy as np
    from harness import sp
    from specula.data_objects.electric_field import ElectricField
    from specula.data_objects.layer import Layer
    rng = c.rng
    p = int(rng.integers(2))
    nx, ny = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    td, tc = (np.float64, np.complex128) if p == 0 else (np.float32, np.complex64)
    rt = 1e-11 if p == 0 else 2e-4
    ef = ElectricField(nx, ny, 0.1, S0=3.0, precision=p, target_device_idx=-1)
    c.check(ef.field.shape == (2, ny, nx) and ef.size == (ny, nx) and ef.field.dtype == td, 'ef:shape', f'{ef.field.shape} {ef.field.dtype}')
    c.check(np.all(ef.A == 1) and np.all(ef.phaseInNm == 0), 'ef:initial')
    A = (rng.random((ny, nx)) * (rng.random((ny, nx)) < 0.7)).astype(td)
    P = (rng.normal(size=(ny, nx)) * 300).astype(td)
    ef.A = A
    ef.phaseInNm = P
    c.describe(nx=nx, ny=ny, p=p, s=float(A.sum()))
    keep = ef.field.copy()
    wl = float(rng.uniform(300, 3000))
    E = A * np.exp(2j * np.pi * P.astype(float) / wl)
    c.near(ef.phi_at_lambda(wl), 2 * np.pi * P / wl, 'ef:phi', rtol=rt, atol=rt)
    sy, sx = np.s_[int(rng.integers(0, ny)):], np.s_[:int(rng.integers(1, nx + 1))]
    c.near(ef.phi_at_lambda(wl, slicey=sy, slicex=sx), (2 * np.pi * P / wl)[sy, sx], 'ef:phi-slice', rtol=rt, atol=rt)
    e = ef.ef_at_lambda(wl)
    c.check(e.dtype == tc, 'ef:complex-type', f'{e.dtype}')
    c.near(e, E, 'ef:ef', rtol=rt, atol=rt)
    e[...] = 0
    e = ef.ef_at_lambda(wl, slicey=sy, slicex=sx)
    c.near(e, E[sy, sx], 'ef:ef-slice', rtol=rt, atol=rt)
    out = np.full((ny, nx), 7 + 7j, dtype=tc)
    e = ef.ef_at_lambda(wl, out=out)
    c.check(e is out, 'ef:out-reference')
    c.near(out, E, 'ef:ef-out', rtol=rt, atol=rt)
    c.near(ef.square_modulus(wl), A.astype(float)**2, 'ef:square', rtol=rt, atol=rt)
    c.near(ef.masked_area(), A.astype(float).sum() * 0.01, 'ef:masked-area', rtol=rt, atol=rt)
    c.near(ef.area(), nx * ny * 0.01, 'ef:area', rtol=rt, atol=rt)
    disp = ef.array_for_display()
    m = A > 0
    want = np.where(m, P.astype(float) - (P[m].astype(float).mean() if m.any() else 0), 0)
    c.near(disp, want, 'ef:display', rtol=rt, atol=rt * 1e3)
    x0, y0 = int(rng.integers(0, ny)), int(rng.integers(0, nx))
    x1, y1 = int(rng.integers(x0 + 1, ny + 1)), int(rng.integers(y0 + 1, nx + 1))
    s = ef.sub_ef(xfrom=x0, xto=x1, yfrom=y0, yto=y1)
    c.check(np.array_equal(s.field, keep[:, x0:x1, y0:y1]) and s.field.dtype == td and s.S0 == 3.0 and s.pixel_pitch == 0.1, 'ef:sub', f'{s.field.shape} {s.field.dtype}')
    s.field[...] = 5
    c.check(np.array_equal(ef.field, keep), 'ef:changed-by-reading', 'reading operations changed the field')
    big = ElectricField(nx + 3, ny + 2, 0.1, precision=p, target_device_idx=-1)
    big.A = rng.random((ny + 2, nx + 3)).astype(td)
    big.phaseInNm = rng.normal(size=(ny + 2, nx + 3)).astype(td)
    bk = big.field.copy()
    sr = [int(rng.integers(0, 3)), int(rng.integers(0, 4))]
    if rng.random() < 0.3:
        ef.product(big, subrect=None) if rng.random() < 0.5 else ef.product(big, subrect=[0, 0])
        sr = [0, 0]
    else:
        ef.product(big, subrect=sr)
    part = bk[:, sr[0]:sr[0] + ny, sr[1]:sr[1] + nx]
    c.near(ef.A, A.astype(float) * part[0], 'ef:product-A', rtol=rt, atol=1e-6 if p else 1e-12)
    c.near(ef.phaseInNm, P.astype(float) + part[1], 'ef:product-phase', rtol=rt, atol=1e-3 if p else 1e-10)
    c.check(np.array_equal(big.field, bk), 'ef:product-operand', 'product changed its operand')
    ef2 = ElectricField(nx, ny, 0.1, precision=p, target_device_idx=-1)
    ef2.set_value(ef.get_value())
    c.check(ef.compare(ef2) is False and not ef2.compare(ef), 'ef:compare-equal')
    ef2.field[int(rng.integers(2)), int(rng.integers(ny)), int(rng.integers(nx))] += 1
    c.check(bool(ef.compare(ef2)), 'ef:compare-different')
    f = ef.field
    ef.reset()
    c.check(ef.field is f and np.all(ef.A == 1) and np.all(ef.phaseInNm == 0), 'ef:reset')
    ef.resize(nx + 2, ny + 1, pitch=0.3)
    c.check(ef.field.shape == (2, ny + 1, nx + 2) and ef.field.dtype == td and np.all(ef.A == 1) and np.all(ef.phaseInNm == 0) and ef.pixel_pitch == 0.3, 'ef:resize', f'{ef.field.shape}')
    # other containers
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.intensity import Intensity
    from specula.data_objects.slopes import Slopes
    px = Pixels(nx, ny, precision=p, target_device_idx=-1)
    v = rng.integers(0, 1000, (ny, nx)).astype(td)
    px.set_value(v.copy())
    px.multiply(2.5)
    c.near(px.array_for_display(), v * 2.5, 'pixels:multiply', rtol=rt)
    i1, i2 = Intensity(nx, ny, precision=p, target_device_idx=-1), Intensity(nx, ny, precision=p, target_device_idx=-1)
    a, b = rng.random((ny, nx)).astype(td), rng.random((ny, nx)).astype(td)
    i1.set_value(a.copy())
    i2.set_value(b.copy())
    i1.sum(i2, factor=0.7)
    c.near(i1.get_value(), a + 0.7 * b, 'intensity:sum', rtol=rt)
    c.check(np.array_equal(i2.i, b), 'intensity:sum-operand')
    n = int(rng.integers(1, 30))
    il = bool(rng.integers(2)) and n % 2 == 0
    sl = Slopes(slopes=rng.normal(size=n), interleave=il, precision=p, target_device_idx=-1)
    v = sl.slopes.copy()
    wx, wy = (v[0::2], v[1::2]) if il else (v[:n // 2], v[n // 2:])
    c.check(np.array_equal(sl.xslopes, wx) and np.array_equal(sl.yslopes, wy), 'slopes:axes', f'n={n} interleave={il}')
    c.check(sl.size == n and len(sl.indx()) + len(sl.indy()) == n, 'slopes:all-elements', f'n={n}')
    if n % 2 == 0:
        sl.xslopes = wy.copy() * 2
        sl.yslopes = wx.copy() * 3
        w = np.empty(n, dtype=td)
        if il:
            w[0::2], w[1::2] = wy * 2, wx * 3
        else:
            w[:n // 2], w[n // 2:] = wy * 2, wx * 3
        c.near(sl.slopes, w, 'slopes:set-axes', rtol=rt)
        ang = float(rng.uniform(-200, 200))
        fx, fy = bool(rng.integers(2)), bool(rng.integers(2))
        X, Y = sl.xslopes.astype(float), sl.yslopes.astype(float)
        sl.rotate(ang, flipx=fx, flipy=fy)
        t = np.radians(ang)
        c.near(sl.xslopes, (X * np.cos(t) - Y * np.sin(t)) * (-1 if fx else 1), 'slopes:rotate-x', rtol=1e-3 if p else 1e-9, atol=1e-4 if p else 1e-9)
        c.near(sl.yslopes, (X * np.sin(t) + Y * np.cos(t)) * (-1 if fy else 1), 'slopes:rotate-y', rtol=1e-3 if p else 1e-9, atol=1e-4 if p else 1e-9)
    m2 = int(rng.integers(1, 30))
    if not il or m2 % 2 == 0:
        sl.resize(m2)
        ref = Slopes(m2, interleave=il, precision=p, target_device_idx=-1)
        c.check(sl.size == m2 and np.array_equal(sl.indx(), ref.indx()) and np.array_equal(sl.indy(), ref.indy()) and sl.slopes.dtype == td, 'slopes:resize', f'{m2}: {sl.indy()} expected {ref.indy()}')
    c.saw('fields')
