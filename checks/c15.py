"""C15: the optical path is the exact superposition of mirrors, layers, screens along each source direction."""
from harness.vf import CheckDef
CHECK = CheckDef('C15', rule=(
    'Each case builds a random set of layers (screens, pupil stops, mirrors; random sizes, heights, shifts, rotations, magnifications, transmissions) and of sources '
    '(on/off axis, infinite/finite height, zenith angle, decentred pupil), drives the real propagation for several steps and compares every published field with an '
    'independent ray-geometry reference (own bilinear sampling), plus superposition/homogeneity/independence relations between runs, Fresnel eigenfunctions and energy, '
    'and mirror shapes recomputed from command and influence functions. Non-trivial: at least one interpolated layer or non-zero command was judged; distinct by geometry.'),
    assumptions=['footprints that leave a layer are outside the domain (edge clamping)', 'magnification < 1 is ignored by design',
                 'a magnified layer has its phase filled in place outside its aperture (pinned by an existing test)',
                 'layer and pupil sizes have the same parity'])

A2R = 4.84813681109536e-06


def mklayer(rng, N, pitch, height, kind='full', **kw):
    import numpy as np
    from specula.data_objects.layer import Layer
    from harness import sp
    L = Layer(N, N, pitch, height, target_device_idx=-1, **kw)
    fill(rng, L, kind)
    return L


def fill(rng, L, kind):
    import numpy as np
    N = L.size[0]
    y, x = np.mgrid[:N, :N] / N
    p = np.zeros((N, N))
    for i in range(5):
        p += rng.normal() * np.cos(2 * np.pi * (rng.uniform(-2, 2) * x + rng.uniform(-2, 2) * y) + rng.uniform(0, 6))
    L.phaseInNm[:] = p * rng.uniform(20, 300)
    if kind == 'amp':
        L.A[:] = 0.6 + 0.3 * np.cos(2 * np.pi * (x * rng.uniform(0.5, 2) + y) + rng.uniform(0, 6))
    elif kind == 'mask':
        r = np.hypot(x - .5, y - .5)
        L.A[:] = (r < 0.5) & (r > rng.uniform(0, .2))
    elif kind == 'noise':
        L.phaseInNm[:] = rng.normal(size=(N, N)) * 100
        L.A[:] = rng.uniform(0.1, 1, size=(N, N))
    else:
        L.A[:] = 1


def coords(L, pol, H, Np, airmass, pupos=None, chrom=(0., 0.)):
    """coordinates in the layer (row, col) hit by each pupil pixel"""
    import numpy as np
    th = np.array([np.cos(np.radians(pol[1])), np.sin(np.radians(pol[1]))]) * pol[0] * A2R
    NL = L.size[0]
    h = L.height
    pos = th * h * airmass                   # metres, from pupil centre
    if pupos is not None and NL > Np:
        pu = np.asarray(pupos, float)
        pos = th * h * airmass + pu if np.isinf(H) else (th * H * airmass - pu) * h / H + pu
    pos = (pos + np.asarray(chrom)) / L.pixel_pitch
    scale = (1 if np.isinf(H) else (H - h) / H) / max(L.magnification, 1)
    u = (np.arange(Np) - (Np - 1) / 2) * scale
    X, Y = np.meshgrid(u, u)
    X = X + pos[0] - float(L.shiftXYinPixel[0])
    Y = Y + pos[1] - float(L.shiftXYinPixel[1])
    a = np.radians(-L.rotInDeg)
    c, s = np.cos(a), np.sin(a)
    return Y * c + X * s + (NL - 1) / 2, X * c - Y * s + (NL - 1) / 2


def inside(L, yx, eps=1e-3):
    y, x = yx
    M = L.size[0] - 1
    # exactly on the border is allowed only for the identity footprint
    return y.min() >= -1e-9 and x.min() >= -1e-9 and y.max() <= M + 1e-9 and x.max() <= M + 1e-9


def bilin(a, yx):
    import numpy as np
    y, x = yx
    M = a.shape[0] - 1
    y0 = np.clip(np.floor(y + 1e-12).astype(int), 0, max(M - 1, 0))
    x0 = np.clip(np.floor(x + 1e-12).astype(int), 0, max(M - 1, 0))
    dy, dx = y - y0, x - x0
    return (a[y0, x0] * (1 - dy) * (1 - dx) + a[y0 + 1, x0] * dy * (1 - dx) + a[y0, x0 + 1] * (1 - dy) * dx + a[y0 + 1, x0 + 1] * dy * dx)


def grad(a):
    import numpy as np
    return max(np.abs(np.diff(a, axis=0)).max(), np.abs(np.diff(a, axis=1)).max())


def source(pol, H=float('inf'), mag=5.0, wl=600.0, **kw):
    from specula.data_objects.source import Source
    return Source(list(pol), mag, wl, height=H, target_device_idx=-1, **kw)


def world(c, lean=False):
    """random geometry -> dict"""
    import numpy as np
    from harness import sp
    rng = c.rng
    Np = int(rng.integers(6, 22))
    pitch = float(rng.uniform(0.05, 0.5))
    zen = float(sp.pick(rng, [0, 0, 25, 50]))
    am = 1 / np.cos(np.radians(zen))
    pupos = None if rng.random() < .7 else [float(v) for v in rng.uniform(-2, 2, 2) * pitch]
    sources = {}
    for i in range(int(rng.integers(1, 4))):
        onax = rng.random() < .3
        pol = (0.0, 0.0) if onax else (float(rng.uniform(0.5, 60)), float(rng.uniform(0, 360)))
        H = float('inf') if rng.random() < .6 else float(sp.pick(rng, [20e3, 90e3, 3e5]))
        sources[f's{i}'] = (pol, H)
    layers = []
    for i in range(int(rng.integers(1, 5))):
        for attempt in range(20):
            atpup = rng.random() < .3
            h = 0.0 if atpup else float(rng.uniform(50, 12000))
            NL = Np + 2 * int(rng.integers(0, 3)) if atpup else Np + 2 * int(rng.integers(1, 16))
            kw = {}
            if rng.random() < .4:
                kw['shiftXYinPixel'] = tuple(float(v) for v in (rng.integers(-3, 4, 2) if rng.random() < .3 else rng.uniform(-2, 2, 2)))
            if rng.random() < .4:
                kw['rotInDeg'] = float(sp.pick(rng, [90, 180, 270, rng.uniform(-180, 180)]))
            if rng.random() < .3:
                kw['magnification'] = float(rng.uniform(1.05, 2.5))
            kind = sp.pick(rng, ['full', 'amp', 'noise'] if 'magnification' in kw else ['full', 'amp', 'mask', 'noise'])
            L = mklayer(rng, NL, pitch, h, kind, **kw)
            L._kind = kind
            ok = True
            for pol, H in sources.values():
                ok &= inside(L, coords(L, pol, H, Np, am, pupos))
                th = pol[0] * A2R * h * am / pitch
                lim = (NL - Np) / 2
                pp = 0 if pupos is None or NL <= Np else max(abs(v) for v in pupos) / pitch
                ok &= th + pp <= lim or (th == 0 and pp == 0)
            if ok:
                layers.append(L)
                break
    if not layers:
        L = mklayer(rng, Np, pitch, 0.0, 'amp')
        L._kind = 'amp'
        layers.append(L)
    return dict(Np=Np, pitch=pitch, zen=zen, am=am, pupos=pupos, sources=sources, layers=layers)


def prop(w, layers=None, names=None, split=None, **kw):
    from specula.processing_objects.atmo_propagation import AtmoPropagation
    from harness import sp
    names = list(w['sources']) if names is None else names
    layers = w['layers'] if layers is None else layers
    P = AtmoPropagation(sp.simul_params(pixel_pupil=w['Np'], pixel_pitch=w['pitch'], zenithAngleInDeg=w['zen']),
                        source_dict={n: source(*w['sources'][n]) for n in names}, pupil_position=w['pupos'], target_device_idx=-1, **kw)
    k = len(layers) if split is None else split
    P.inputs['common_layer_list'].set(layers[:k])
    if split is not None:
        P.inputs['atmo_layer_list'].set(layers[k:])
    with sp.quiet():
        P.setup()
    return P


def go(P, layers, t):
    from harness import sp
    for L in layers:
        L.generation_time = t
    sp.step(P, t)
    return {k[4:-3]: (sp.arr(v.A).astype(float), sp.arr(v.phaseInNm).astype(float)) for k, v in P.outputs.items()}


def desc(w):
    return dict(Np=w['Np'], pitch=w['pitch'], zen=w['zen'], pupos=w['pupos'], sources=str(w['sources']),
                layers=[[L.size[0], L.height, [float(v) for v in L.shiftXYinPixel], L.rotInDeg, L.magnification, L._kind] for L in w['layers']])


def tolp(c, w, layers=None):
    import numpy as np
    eps = 1e-10 if c.precision == 0 else 4e-5
    return sum(grad(np.asarray(L.phaseInNm, float)) + grad(np.asarray(L.A, float)) * 1 for L in (layers or w['layers'])) * eps * (60 if c.precision else 1) / (10 if c.precision else 1) + 1e-9


@CHECK.section('geometry', quick=150, thorough=6000)
def geometry(c):
    """published field == product/sum of every layer sampled along the ray; multi-step with changing layers"""
    import numpy as np
    from harness import sp
    w = world(c)
    rng = c.rng
    c.describe(**desc(w))
    split = None if rng.random() < .3 else int(rng.integers(0, len(w['layers'])))
    P = prop(w, split=split)
    for k in range(3):
        t = k * 1000
        if k:
            for L in w['layers']:
                if rng.random() < .7:
                    fill(rng, L, L._kind)
        A0 = [np.array(L.A, float) for L in w['layers']]
        p0 = [np.array(L.phaseInNm, float) for L in w['layers']]
        o = go(P, w['layers'], t)
        for n, (pol, H) in w['sources'].items():
            eA, eP, sl = 1., 0., 0.
            for L, a, p in zip(w['layers'], A0, p0):
                yx = coords(L, pol, H, w['Np'], w['am'], w['pupos'])
                eA = eA * bilin(a, yx)
                eP = eP + bilin(p, yx)
                sl += grad(p)
            # sampling coordinates carry a relative rounding error of the layer size
            rel = (1e-12 if c.precision == 0 else 2e-6) * max(L.size[0] for L in w['layers']) * 4
            c.near(o[n][1], eP, 'phase', rtol=0, atol=rel * (sl + 50) + 1e-9, source=n, step=k)
            c.near(o[n][0], eA, 'amplitude', rtol=0, atol=rel * 4 * len(w['layers']) + 1e-12, source=n, step=k)
            c.eq(int(P.outputs[f'out_{n}_ef'].generation_time), t, 'generation time')
            c.saw('fields compared')
        for L in w['layers']:
            c.saw('layer kinds: ' + L._kind)
    for L in w['layers']:
        for f, v in (('rotated', L.rotInDeg), ('magnified', L.magnification - 1), ('shifted', np.any(L.shiftXYinPixel)), ('at altitude', L.height)):
            if v:
                c.saw(f'layers {f}')


@CHECK.section('superposition', quick=60, thorough=2500)
def superposition(c):
    """propagate(A u B) = propagate(A) + propagate(B); homogeneous; independent of order and of the other sources"""
    import numpy as np
    w = world(c)
    rng = c.rng
    c.describe(**desc(w))
    Ls = w['layers']
    eps = 1e-9 if c.precision == 0 else 1e-3
    both = go(prop(w), Ls, 0)
    sc = 1 + sum(np.abs(np.asarray(L.phaseInNm)).max() for L in Ls)
    # each layer on its own
    acc = {n: [1., 0.] for n in w['sources']}
    for L in Ls:
        o = go(prop(w, [L]), [L], 0)
        for n in acc:
            acc[n] = [acc[n][0] * o[n][0], acc[n][1] + o[n][1]]
    for n in acc:
        c.near(both[n][1], acc[n][1], 'sum of phases', rtol=0, atol=eps * sc * .1)
        c.near(both[n][0], acc[n][0], 'product of amplitudes', rtol=0, atol=eps)
    # permutation and list split
    perm = [Ls[i] for i in rng.permutation(len(Ls))]
    o = go(prop(w, perm, split=int(rng.integers(0, len(perm)))), perm, 0)
    for n in acc:
        c.near(o[n][1], both[n][1], 'order independence', rtol=0, atol=eps * sc * .1)
        c.near(o[n][0], both[n][0], 'order independence A', rtol=0, atol=eps)
    # one source alone, and a twin of it
    n = list(w['sources'])[int(rng.integers(0, len(w['sources'])))]
    alone = go(prop(w, names=[n]), Ls, 0)
    c.eq(alone[n][1].tobytes(), both[n][1].tobytes(), 'other sources change a field')
    c.eq(alone[n][0].tobytes(), both[n][0].tobytes(), 'other sources change an amplitude')
    w2 = dict(w, sources=dict(w['sources'], twin=w['sources'][n], full=(tuple(np.array(w['sources'][n][0]) + [0, 360.]), w['sources'][n][1])))
    o2 = go(prop(w2), Ls, 0)
    c.eq(o2['twin'][1].tobytes(), both[n][1].tobytes(), 'same direction, same field')
    c.near(o2['full'][1], both[n][1], 'full turn', rtol=0, atol=eps * sc)
    # homogeneity
    f = float(rng.uniform(-3, 3))
    saved = [np.array(L.phaseInNm) for L in Ls]
    for L in Ls:
        L.phaseInNm[:] = L.phaseInNm * f
    o3 = go(prop(w), Ls, 0)
    for L, s in zip(Ls, saved):
        L.phaseInNm[:] = s
    c.near(o3[n][1], f * both[n][1], 'homogeneity', rtol=0, atol=eps * sc)
    # inputs are only read
    for L, s in zip(Ls, saved):
        c.eq(np.array(L.phaseInNm).tobytes(), s.tobytes(), 'layer modified')
    c.saw('relations checked', 6)


@CHECK.section('separate', quick=30, thorough=1200)
def separate(c):
    """without merging, the list of fields of a source holds the contribution of each layer, in propagation order, at every step"""
    import numpy as np
    from harness import sp
    w = world(c)
    rng = c.rng
    up = bool(rng.random() < .3)
    c.describe(up=up, **desc(w))
    Ls = w['layers']
    k = int(rng.integers(0, len(Ls) + 1))
    P = prop(w, split=k, mergeLayersContrib=False, upwards=up)
    order = Ls if up else Ls[::-1]
    for t in (0, 1000):
        if t:
            for L in Ls:
                fill(rng, L, L._kind)
        for L in Ls:
            L.generation_time = t
        before = [(np.array(L.A, float), np.array(L.phaseInNm, float)) for L in order]
        sp.step(P, t)
        for n, (pol, H) in w['sources'].items():
            fields = P.outputs[f'out_{n}_ef']
            c.eq(len(fields), len(Ls), 'one field per layer')
            for f, L, (a, p) in zip(fields, order, before):
                yx = coords(L, pol, H, w['Np'], w['am'], w['pupos'])
                rel = (1e-12 if c.precision == 0 else 2e-6) * max(L.size) * 4
                c.near(sp.arr(f.phaseInNm).astype(float), bilin(p, yx), 'phase of one layer', rtol=0, atol=rel * (grad(p) + 50) + 1e-9)
                c.near(sp.arr(f.A).astype(float), bilin(a, yx), 'amplitude of one layer', rtol=0, atol=rel * 4 + 1e-9)
                c.eq(int(f.generation_time), t, 'generation time of one layer')
                c.saw('layer contributions')


@CHECK.section('masked_magnified', quick=40, thorough=1500)
def masked_magnified(c):
    """a magnified mirror: what lies outside its aperture never reaches the light; an aperture-wide piston stays a piston"""
    import numpy as np
    from harness import sp
    rng = c.rng
    Np = int(rng.integers(8, 25))
    pitch = 0.1
    NL = Np + 2 * int(rng.integers(0, 8))
    mg = float(rng.uniform(1.02, 1.8))
    L = mklayer(rng, NL, pitch, 0.0, 'mask', magnification=mg, rotInDeg=float(sp.pick(rng, [0, 0, 30.])))
    L._kind = 'mask'
    w = dict(Np=Np, pitch=pitch, zen=0, am=1, pupos=None, sources={'s': ((0., 0.), float('inf'))}, layers=[L])
    c.describe(**desc(w))
    P = prop(w)
    ph = np.array(L.phaseInNm)
    m = np.array(L.A) > 0
    ref = go(P, [L], 0)['s']
    junk = ph.copy()
    junk[~m] = rng.normal(size=(~m).sum()) * 1e5
    L.phaseInNm[:] = junk
    o = go(P, [L], 1000)['s']
    c.near(o[1], ref[1], 'phase outside the aperture leaks in', rtol=0, atol=1e-6 if c.precision == 0 else 0.05)
    c.check(np.all(np.isfinite(o[1])), 'finite', 'propagated phase is not finite')
    # a new shape (time varying mirror) replaces the old one completely
    piston = float(rng.uniform(-200, 200))
    ph2 = np.zeros((NL, NL))
    ph2[m] = piston
    keep = np.array(L.phaseInNm)
    keep[m] = piston          # a mirror rewrites only its own aperture
    L.phaseInNm[:] = keep
    o = go(P, [L], 2000)['s']
    lit = o[0] > 1e-6
    c.near(o[1][lit], np.full(lit.sum(), piston), 'piston on a magnified mirror', rtol=1e-4 if c.precision else 1e-9, atol=1e-6)
    # the aperture itself changes: what is outside the new one is ignored too
    yy, xx = np.mgrid[:NL, :NL] - (NL - 1) / 2
    m2 = m & (np.hypot(yy - rng.uniform(-1, 1), xx - rng.uniform(-1, 1)) < NL * float(rng.uniform(0.25, 0.4)))
    if m2.sum() > 12:
        L.A[:] = m2
        new = rng.normal(size=(NL, NL)) * 1e5
        new[m2] = piston / 2
        L.phaseInNm[:] = new
        o = go(P, [L], 3000)['s']
        lit = o[0] > 1e-6
        c.near(o[1][lit], np.full(lit.sum(), piston / 2), 'piston behind a new aperture', rtol=1e-4 if c.precision else 1e-9, atol=1e-6)
        c.saw('new apertures')
    c.saw('steps', 3)
    c.saw('lit pixels', int(lit.sum()))


@CHECK.section('outside', quick=20, thorough=600)
def outside(c):
    """a source whose footprint leaves a layer, or that lies below a layer, is refused rather than silently clamped"""
    import numpy as np
    from harness import sp
    rng = c.rng
    Np = int(rng.integers(6, 20))
    NL = Np + 2 * int(rng.integers(1, 12))
    pitch = float(rng.uniform(.05, .3))
    h = float(rng.uniform(500, 10000))
    L = mklayer(rng, NL, pitch, h)
    L._kind = 'full'
    lim = (NL - Np) / 2 * pitch
    if rng.random() < .5:
        fac = float(sp.pick(rng, [rng.uniform(0.1, 0.95), rng.uniform(1.05, 3)]))
        ang = float(sp.pick(rng, [0, 90, 180, 270]))
        zen = float(sp.pick(rng, [0, 40]))
        am = 1 / np.cos(np.radians(zen))
        pol = (fac * lim / (h * am) / A2R, ang)
        w = dict(Np=Np, pitch=pitch, zen=zen, am=am, pupos=None, sources={'s': (pol, float('inf'))}, layers=[L])
        c.describe(fac=fac, **desc(w))
        if fac > 1:
            c.raises(ValueError, lambda: prop(w), 'source out of the layer accepted')
            c.saw('refused')
        else:
            go(prop(w), [L], 0)
            c.saw('accepted')
    else:
        fac = float(sp.pick(rng, [rng.uniform(0.2, 0.98), rng.uniform(1.05, 3)]))
        w = dict(Np=Np, pitch=pitch, zen=0, am=1, pupos=None, sources={'s': ((0., 0.), h * fac)}, layers=[L])
        c.describe(fac=fac, **desc(w))
        if fac < 1:
            c.raises(ValueError, lambda: prop(w), 'source below a layer accepted')
            c.saw('refused')
        else:
            go(prop(w), [L], 0)
            c.saw('accepted')


@CHECK.section('chromatic', quick=25, thorough=800)
def chromatic(c):
    """chromatic displacement: along elevation only, continuous with field angle, zero at zenith / same wavelength, Devaney magnitude"""
    import numpy as np
    from harness import sp
    from specula.processing_objects.atmo_propagation import AtmoPropagation
    from specula.lib.air_refraction import MatharAirRefraction
    rng = c.rng
    Np, NL = 10, 40
    pitch = float(rng.uniform(0.02, 0.1))
    zen = float(sp.pick(rng, [0, 20, 45, 60]))
    alt = float(rng.uniform(0, 4000))
    h = float(rng.uniform(500, 15000))
    gx, gy = rng.normal(size=2) * 10
    yy, xx = np.mgrid[:NL, :NL] - (NL - 1) / 2.
    L = mklayer(rng, NL, pitch, h)
    L.phaseInNm[:] = gx * xx + gy * yy
    wl, wr = (float(v) for v in rng.uniform(400, 2400, 2))
    if rng.random() < .2:
        wr = wl
    pol = (0., 0.) if rng.random() < .6 else (float(rng.uniform(.1, 1)), float(rng.uniform(0, 360)))
    am = 1 / np.cos(np.radians(zen))
    c.describe(zen=zen, alt=alt, h=h, wl=wl, wr=wr, pol=str(pol), pitch=pitch)

    def run(pol, on, H=float('inf')):
        P = AtmoPropagation(sp.simul_params(pixel_pupil=Np, pixel_pitch=pitch, zenithAngleInDeg=zen), source_dict={'s': source(pol, H, wl=wl)}, target_device_idx=-1,
                            enable_chromatic_effect=on, chromatic_reference_wavelengthInNm=wr if on else None, telescope_altitude_m=alt if on else None)
        P.inputs['common_layer_list'].set([])
        P.inputs['atmo_layer_list'].set([L])
        with sp.quiet():
            P.setup()
        return go(P, [L], 0)['s'][1]
    d = run(pol, True) - run(pol, False)
    n = MatharAirRefraction()
    dn = n.get_refractive_index(wr * 1e-9) - n.get_refractive_index(wl * 1e-9)

    def press(z):
        if z < 11000:
            return 1012.9 * ((288.08 - 0.00649 * z) / 288.08) ** 5.256
        if z < 25000:
            return 226.5 * np.exp(1.73 - 0.000157 * z)
        return 24.88 * ((141.94 + 0.00299 * z) / 216.6) ** -11.388
    sh = dn * am * np.tan(np.radians(zen)) * press(alt) * 100 / (9.8 * 1.225) * (1 - press(alt + h) / press(alt)) / pitch
    g = abs(gx) + abs(gy) + 1
    c.near(d, np.full((Np, Np), gy * sh), 'chromatic displacement', rtol=1e-3, atol=g * (1e-8 if c.precision == 0 else 3e-4))
    # continuity around the optical axis
    near0 = run((1e-7, 0.), True)
    c.near(run((0., 0.), True), near0, 'chromatic displacement jumps on axis', rtol=1e-6, atol=g * (1e-5 if c.precision == 0 else 1e-3))
    c.saw('displacements')
    if sh:
        c.saw('non-zero displacements')


@CHECK.section('fresnel', quick=40, thorough=1500)
def fresnel(c):
    """physical propagation: energy, eigenfunctions, two hops = one hop, zero distance = identity, up/down order"""
    import numpy as np
    from harness import sp
    rng = c.rng
    N = int(rng.integers(6, 33))
    pitch = float(rng.uniform(0.002, 0.05))
    wl = float(rng.uniform(400, 2000))
    # longest distance the sampling can represent without the documented reduction
    zmax = 0.5 * np.sqrt(max((2 * pitch * N * pitch / (wl * 1e-9)) ** 2 - (N * pitch) ** 2, 0))
    if zmax < 0.5:
        return c.skip()
    h1, h2, Hs = (float(v) for v in np.sort(rng.uniform(0.01, 0.95, 3)) * min(zmax, 5000))
    up = bool(rng.random() < .5)
    c.describe(N=N, pitch=pitch, wl=wl, h1=h1, h2=h2, Hs=Hs, up=up)
    from specula.processing_objects.atmo_propagation import AtmoPropagation

    # layers live on the ground-projected pupil grid: on axis, very distant geometric cone is removed by magnified footprints;
    # to isolate diffraction the layers are uniform in amplitude and periodic in phase, sampled 1:1 (upwards launch uses the same grid)
    def run(layers, H=Hs, pad=1):
        P = AtmoPropagation(sp.simul_params(pixel_pupil=N, pixel_pitch=pitch), source_dict={'s': source((0., 0.), H, wl=wl)}, target_device_idx=-1,
                            doFresnel=True, wavelengthInNm=wl, upwards=up, padding_factor=pad)
        P.inputs['common_layer_list'].set(layers)
        with sp.quiet():
            P.setup()
        A, p = go(P, layers, 0)['s']
        return A * np.exp(2j * np.pi * p / wl)

    def L(h, A=None, p=None):
        l = mklayer(rng, N, pitch, h)
        l.A[:] = 1 if A is None else A
        l.phaseInNm[:] = 0 if p is None else p
        return l
    y, x = np.mgrid[:N, :N]
    tol = 1e-9 if c.precision == 0 else 2e-4
    fr = np.fft.fftfreq(N, pitch)

    def hop(E, d):
        fy, fx = np.meshgrid(fr, fr, indexing='ij')
        return np.fft.ifft2(np.fft.fft2(E) * np.exp(-1j * np.pi * wl * 1e-9 * d * (fx ** 2 + fy ** 2)))
    # the ground layer is sampled 1:1 whatever the source height
    p1 = rng.normal(size=(N, N)) * wl / 6
    A1 = rng.uniform(.3, 1, size=(N, N))
    # a ground layer and a transparent one at altitude
    g = L(0., A1, p1)
    s = L(h1)
    got = run([g, s])
    E0 = A1 * np.exp(2j * np.pi * p1 / wl)
    if up:
        want = hop(E0, Hs)
    else:
        want = E0
    c.near(np.abs(got), np.abs(want), 'diffracted amplitude', rtol=0, atol=tol * 10)
    c.near(got, want, 'diffracted field', rtol=0, atol=tol * 30)
    if up:
        c.near(float(np.sum(np.abs(got) ** 2)), float(np.sum(A1 ** 2)), 'energy', rtol=tol)
        # adding a transparent intermediate plane changes nothing
        got2 = run([g, L(h1), L(h2)])
        c.near(got2, got, 'two hops differ from one', rtol=0, atol=tol * 30)
        c.saw('upwards')
    else:
        # uniform screens at altitude with piston only: no diffraction, product of transmissions
        a, pis = float(rng.uniform(.3, 1)), float(rng.uniform(-wl / 5, wl / 5))
        got = run([L(0., A1, p1), L(h1, a, pis), L(h2)])
        c.near(got, E0 * a * np.exp(2j * np.pi * pis / wl), 'uniform screen diffracts', rtol=0, atol=tol * 30)
        # screen at altitude then free propagation to the ground (on axis, source so far that the cone is negligible)
        Hf = 1e13
        kx, ky = int(rng.integers(0, N // 2 + 1)), int(rng.integers(0, N // 2 + 1))
        amp = float(rng.uniform(.02, .3)) * wl / 2 / np.pi
        ph = amp * np.cos(2 * np.pi * (kx * x + ky * y) / N)
        got = run([L(0.), L(h1, None, ph)], H=Hf)
        c.near(got, hop(np.exp(2j * np.pi * ph / wl), h1), 'screen at altitude', rtol=0, atol=max(tol * 30, 1e-4 if c.precision else 1e-6))
        c.saw('downwards')
    # padding: never creates energy
    got = run([L(0., A1, p1), L(h1)], pad=2)
    c.check(np.sum(np.abs(got) ** 2) <= np.sum(A1 ** 2) * (1 + tol * 10) + tol, 'padding creates energy', 'more light after padding', out=float(np.sum(np.abs(got) ** 2)))
    c.saw('odd grid' if N % 2 else 'even grid')


@CHECK.section('mirror', quick=150, thorough=6000)
def mirror(c):
    """mirror shape == sign * command @ influence functions, for every selection, after any history"""
    import numpy as np
    from harness import sp
    from specula.processing_objects.dm import DM
    from specula.data_objects.ifunc import IFunc
    from specula.data_objects.m2c import M2C
    rng = c.rng
    N = int(rng.integers(4, 16))
    nact = int(rng.integers(2, 10))
    mask = (rng.random((N, N)) < .7).astype(float)
    mask[0, 0] = 1
    npx = int(mask.sum())
    F = rng.normal(size=(nact, npx))
    iff = IFunc(F.copy(), mask=mask, target_device_idx=-1)
    sign = int(sp.pick(rng, [-1, -1, 1, 2]))
    kw = {'sign': sign} if sign != -1 else {}
    sel = sp.pick(rng, ['all', 'nmodes', 'start', 'both', 'idx'])
    usem = bool(rng.random() < .4)
    ncol = int(rng.integers(1, nact + 3)) if usem else nact
    M = rng.normal(size=(nact, ncol)) if usem else np.eye(nact)
    valid = np.arange(ncol)
    if sel in ('nmodes', 'both'):
        hi = int(rng.integers(1, min(ncol, nact) + 1))
        kw['nmodes'] = hi
        valid = valid[:hi]
    if sel in ('start', 'both'):
        lo = int(rng.integers(0, len(valid)))
        kw['start_mode'] = lo
        valid = valid[lo:]
    if sel == 'idx':
        valid = rng.permutation(ncol)[:int(rng.integers(1, ncol + 1))]
        kw['idx_modes'] = [int(v) for v in valid]
    # without explicit nmodes the mirror shows at most as many modes as actuators
    lim = kw.get('nmodes', nact) - kw.get('start_mode', 0) if sel != 'idx' else nact
    valid = valid[:lim]
    if usem and len(valid) == 0:
        return c.skip()
    h = float(rng.uniform(0, 9000))
    d = DM(sp.simul_params(pixel_pupil=N, pixel_pitch=0.2), h, ifunc=iff, m2c=M2C(M.copy(), target_device_idx=-1) if usem else None, target_device_idx=-1, **kw)
    c.describe(N=N, nact=nact, sel=sel, m2c=usem, ncol=ncol, valid=valid.tolist(), sign=sign, kw=str(kw))
    cmd = sp.val(np.zeros(len(valid)), t=0)
    d.inputs['in_command'].set(cmd)
    with sp.quiet():
        d.setup()
    lay = d.outputs['out_layer']
    c.eq(float(lay.height), h, 'height')
    for k in range(4):
        n = len(valid)
        if rng.random() < .3:
            n = int(rng.integers(1, len(valid) + 1)) if rng.random() < .6 else len(valid) + (0 if usem else int(rng.integers(0, 4)))
            if n > nact and not usem:
                n = nact if sel != 'idx' else len(valid)
        v = rng.normal(size=n) * 100
        if rng.random() < .15:
            v[:] = 0
        if n < len(valid) and k:
            # a shorter command leaves the remaining modes unspecified by the documentation; use the full length
            v = np.concatenate([v, np.zeros(len(valid) - n)])
        sp.setval(cmd, v, k * 1000) if len(v) == len(cmd.value) else cmd.__setattr__('value', np.asarray(v, cmd.value.dtype))
        cmd.generation_time = k * 1000
        vin = np.array(cmd.value, float)
        sp.step(d, k * 1000)
        full = np.zeros(ncol)
        m = min(len(vin), len(valid))
        full[valid[:m]] = vin[:m]
        want = np.zeros((N, N))
        want[mask > 0] = sign * (M @ full) @ F
        sc = np.abs(want).max() + 1
        c.near(sp.arr(lay.phaseInNm).astype(float), want, 'mirror shape', rtol=0, atol=sc * (1e-11 if c.precision == 0 else 1e-4), step=k)
        c.near(sp.arr(lay.A).astype(float), mask, 'mirror mask', rtol=0, atol=0)
        c.eq(sp.arr(cmd.value).astype(float).tobytes(), vin.tobytes(), 'command modified')
        c.eq(int(lay.generation_time), k * 1000, 'generation time')
        c.saw('shapes')
    c.saw('selection ' + sel)
    if usem:
        c.saw('with m2c')


@CHECK.section('combine', quick=60, thorough=2500)
def combine(c):
    """combinator: phases and fluxes add, amplitudes multiply; reflection is an involution; flattening removes the pupil mean only"""
    import numpy as np
    from harness import sp
    from specula.data_objects.electric_field import ElectricField
    from specula.processing_objects.electric_field_combinator import ElectricFieldCombinator
    from specula.processing_objects.electric_field_reflection import ElectricFieldReflection
    from specula.processing_objects.phase_flattening import PhaseFlattening
    rng = c.rng
    nx, ny = int(rng.integers(2, 20)), int(rng.integers(2, 20))
    if rng.random() < .5:
        ny = nx
    n = int(rng.integers(2, 5))
    pitch = float(rng.uniform(.01, 1))
    c.describe(nx=nx, ny=ny, n=n, pitch=pitch)
    eps = 1e-11 if c.precision == 0 else 1e-5
    efs = [ElectricField(nx, ny, pitch, S0=float(rng.uniform(0, 100)), target_device_idx=-1) for _ in range(n)]
    comb = ElectricFieldCombinator(target_device_idx=-1)
    if n == 2 and rng.random() < .6:
        comb.inputs['in_ef1'].set(efs[0])
        comb.inputs['in_ef2'].set(efs[1])
    else:
        comb.inputs['in_ef_list'].set(efs)
    ref = ElectricFieldReflection(target_device_idx=-1)
    ref.inputs['in_ef'].set(efs[0])
    ref2 = ElectricFieldReflection(target_device_idx=-1)
    ref2.inputs['in_ef'].set(ref.outputs['out_ef'])
    flat = PhaseFlattening(target_device_idx=-1)
    flat.inputs['in_ef'].set(efs[0])
    objs = [comb, ref, ref2, flat]
    for k in range(3):
        t = k * 1000
        for e in efs:
            if k == 0 or rng.random() < .8:
                e.A[:] = rng.uniform(0, 1, size=(ny, nx)) * (rng.random((ny, nx)) < .8)
                e.phaseInNm[:] = rng.normal(size=(ny, nx)) * 200
                e.S0 = float(rng.uniform(0, 100))
            e.generation_time = t
        dig = [e.field.tobytes() for e in efs]
        for o in objs:
            if k == 0:
                with sp.quiet():
                    o.setup()
            sp.step(o, t)
        o = comb.outputs['out_ef']
        c.eq(tuple(o.A.shape), (ny, nx), 'combined shape')
        c.eq(float(o.pixel_pitch), pitch, 'combined pitch')
        c.near(sp.arr(o.phaseInNm).astype(float), sum(sp.arr(e.phaseInNm).astype(float) for e in efs), 'combined phase', rtol=0, atol=eps * 2000)
        c.near(sp.arr(o.A).astype(float), np.prod([sp.arr(e.A).astype(float) for e in efs], axis=0), 'combined amplitude', rtol=0, atol=eps)
        c.near(float(o.S0), sum(e.S0 for e in efs), 'combined flux', rtol=1e-6)
        r, r2 = ref.outputs['out_ef'], ref2.outputs['out_ef']
        c.eq((-sp.arr(efs[0].phaseInNm) + 0.).tobytes(), (sp.arr(r.phaseInNm) + 0.).tobytes(), 'reflected phase')
        c.eq(sp.arr(efs[0].field).tobytes(), (sp.arr(r2.field) + 0.).tobytes(), 'double reflection is not the identity')
        c.eq(float(r2.S0), float(efs[0].S0), 'reflected flux')
        f = flat.outputs['out_ef']
        m = sp.arr(efs[0].A) > 0
        fp, ip = sp.arr(f.phaseInNm).astype(float), sp.arr(efs[0].phaseInNm).astype(float)
        if m.any():
            c.near(fp[m], ip[m] - ip[m].mean(), 'flattened phase', rtol=0, atol=eps * 2000)
        c.near(sp.arr(f.A).astype(float), sp.arr(efs[0].A).astype(float), 'flattened amplitude', rtol=0, atol=0)
        c.eq(float(f.S0), float(efs[0].S0), 'flattened flux')
        c.eq(tuple(f.A.shape), (ny, nx), 'flattened shape')
        c.eq([e.field.tobytes() for e in efs] == dig, True, 'inputs modified')
        for q in objs:
            c.eq(int(q.outputs['out_ef'].generation_time), t, 'generation time')
        c.saw('fields')
    if nx != ny:
        c.saw('non-square')


@CHECK.section('field', quick=60, thorough=2500)
def field(c):
    """ElectricField algebra: complex field, product with sub-rectangle, sub-fields, areas, comparison"""
    import numpy as np
    from harness import sp
    from specula.data_objects.electric_field import ElectricField
    rng = c.rng
    nx, ny = int(rng.integers(2, 16)), int(rng.integers(2, 16))
    pitch = float(rng.uniform(.01, 1))
    e = ElectricField(nx, ny, pitch, S0=3.0, target_device_idx=-1)
    c.describe(nx=nx, ny=ny)
    c.eq(tuple(e.size), (ny, nx), 'size')
    e.A[:] = rng.uniform(0, 1, (ny, nx))
    e.phaseInNm[:] = rng.normal(size=(ny, nx)) * 300
    A, p = sp.arr(e.A).astype(float), sp.arr(e.phaseInNm).astype(float)
    wl = float(rng.uniform(300, 5000))
    tol = 1e-10 if c.precision == 0 else 3e-5
    E = A * np.exp(2j * np.pi * p / wl)
    c.near(sp.arr(e.ef_at_lambda(wl)).astype(complex), E, 'complex field', rtol=0, atol=tol * 10)
    c.near(sp.arr(e.phi_at_lambda(wl)).astype(float), p * 2 * np.pi / wl, 'phase in radians', rtol=tol, atol=tol)
    y0, x0 = int(rng.integers(0, ny)), int(rng.integers(0, nx))
    sy, sx = slice(y0, ny), slice(x0, nx)
    c.near(sp.arr(e.ef_at_lambda(wl, slicey=sy, slicex=sx)).astype(complex), E[sy, sx], 'sliced field', rtol=0, atol=tol * 10)
    buf = np.zeros((ny, nx), dtype=e.complex_dtype)
    r = e.ef_at_lambda(wl, out=buf)
    c.near(buf.astype(complex), E, 'field into buffer', rtol=0, atol=tol * 10)
    c.near(sp.arr(e.square_modulus(wl)).astype(float), A ** 2, 'intensity', rtol=0, atol=tol * 10)
    c.near(float(e.area()), nx * ny * pitch ** 2, 'area', rtol=1e-6)
    c.near(float(e.masked_area()), A.sum() * pitch ** 2, 'masked area', rtol=1e-5)
    # product with a window of a larger field
    bx, by = nx + int(rng.integers(0, 5)), ny + int(rng.integers(0, 5))
    b = ElectricField(bx, by, pitch, target_device_idx=-1)
    b.A[:] = rng.uniform(0, 1, (by, bx))
    b.phaseInNm[:] = rng.normal(size=(by, bx)) * 300
    oy, ox = int(rng.integers(0, by - ny + 1)), int(rng.integers(0, bx - nx + 1))
    q = ElectricField(nx, ny, pitch, target_device_idx=-1)
    q.set_value(e.get_value())
    c.eq(bool(q.compare(e)), False, 'copies compare different')
    q.product(b, subrect=[oy, ox])
    bA, bp = sp.arr(b.A).astype(float), sp.arr(b.phaseInNm).astype(float)
    c.near(sp.arr(q.A).astype(float), A * bA[oy:oy + ny, ox:ox + nx], 'product amplitude', rtol=0, atol=tol)
    c.near(sp.arr(q.phaseInNm).astype(float), p + bp[oy:oy + ny, ox:ox + nx], 'product phase', rtol=0, atol=tol * 1000)
    c.eq(bool(q.compare(e)), True, 'different fields compare equal')
    r0, r1 = np.sort(rng.choice(ny + 1, 2, replace=False))
    q0, q1 = np.sort(rng.choice(nx + 1, 2, replace=False))
    s = e.sub_ef(xfrom=int(r0), xto=int(r1), yfrom=int(q0), yto=int(q1))
    c.near(sp.arr(s.A).astype(float), A[r0:r1, q0:q1], 'sub-field amplitude', rtol=0, atol=0)
    c.near(sp.arr(s.phaseInNm).astype(float), p[r0:r1, q0:q1], 'sub-field phase', rtol=0, atol=0)
    c.eq(float(s.S0), 3.0, 'sub-field flux')
    c.eq(float(s.pixel_pitch), pitch, 'sub-field pitch')
    # size agreement of a window
    ok = True
    try:
        b.checkOther(e, subrect=[by - ny, bx - nx])
    except ValueError:
        ok = False
    c.saw('fields')
    e.reset()
    c.check(np.all(sp.arr(e.A) == 1) and np.all(sp.arr(e.phaseInNm) == 0), 'reset', 'reset field is not flat and full')


@CHECK.section('live', quick=12, thorough=300, timeout=600)
def live(c):
    """a whole AO system: at every step, what each source sees equals the reference superposition of the live layers"""
    import numpy as np
    from harness import sp, zoo
    from specula.processing_objects.atmo_propagation import AtmoPropagation
    rng = c.rng
    params, info = zoo.system(rng, nsteps=5, rich=True, prec=c.precision)
    c.describe(objects=list(params))
    orig = AtmoPropagation.post_trigger
    n = [0, 0]
    bad = []

    def post(self, *a, **k):
        r = orig(self, *a, **k)
        if self.doFresnel or not self.mergeLayersContrib:
            return r
        layers = list(self.local_inputs['common_layer_list'] or []) + list(self.local_inputs['atmo_layer_list'] or [])
        Np = self.simul_params.pixel_pupil
        am = 1 / np.cos(np.radians(self.simul_params.zenithAngleInDeg))
        for nm, s in self.source_dict.items():
            eA, eP, sl = 1., 0., 0.
            for L in layers:
                yx = coords(L, [float(v) for v in s.polar_coordinates], s.height, Np, am)
                eA = eA * bilin(np.asarray(L.A, float), yx)
                eP = eP + bilin(np.asarray(L.phaseInNm, float), yx)
                sl += grad(np.asarray(L.phaseInNm, float))
            o = self.outputs[f'out_{nm}_ef']
            rel = (1e-12 if c.precision == 0 else 2e-6) * max(L.size[0] for L in layers) * 4
            if not (np.allclose(o.phaseInNm, eP, rtol=1e-5 if c.precision else 1e-9, atol=rel * (sl + 50) + 1e-9) and np.allclose(o.A, eA, rtol=0, atol=rel * 4 * len(layers) + 1e-9)):
                bad.append((nm, int(self.current_time), float(np.abs(o.phaseInNm - eP).max()), float(np.abs(o.A - eA).max())))
            n[0] += 1
            n[1] += len(layers)
        return r
    AtmoPropagation.post_trigger = post
    try:
        sp.run_simul(params)
    finally:
        AtmoPropagation.post_trigger = orig
    if not n[0]:
        return c.skip()
    c.check(not bad, 'live superposition', 'a published field is not the superposition of the live layers', bad=str(bad[:3]))
    c.saw('fields in a running system', n[0])
    c.saw('layer contributions', n[1])
