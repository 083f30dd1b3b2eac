"""C19: turbulence is frozen flow with the requested strength, wind and geometry."""
from harness.vf import CheckDef
CHECK = CheckDef('C19', rule=(
    'frozen: real screen-based atmospheres (plain and up/down) driven through random time/wind/seeing histories; every layer at every step is compared with an independently resampled crop of a tape '
    'read from a slow one-pixel-per-step run. infinite: every layer of the endless screens is compared with the bilinear translation of its own earlier states by the integral of the wind; '
    'up/down directions must show one screen seen at two times. strength: pairs of runs differing in one parameter follow its power law. stats: ensemble structure function against the analytical von Karman law. '
    'geometry: layer footprint and height. random: uncorrelated screens history (tile order, update interval, seed change). cube: time interpolation of a user cube. independence: correlation between layers and seeds. '
    'Non-trivial: at least three moved frames were compared (frozen/infinite) or at least one law evaluated; distinct by configuration.'),
    assumptions=['wind direction is constant within a run (a change of direction turns the whole screen in place)',
                 'direction sign is pinned per class: the feature displacement is (-cos, +sin) (columns, rows) for AtmoEvolution and (-cos, -sin) for AtmoInfiniteEvolution; their disagreement is a known finding',
                 'layers rotated by other than multiples of 90 degrees are judged inside the inscribed circle'])

R0_1 = 0.9759 * 0.5 / 4.848     # Fried parameter for a seeing of one arcsecond at 500 nm




def make(cls, params, see, ws, wd, **kw):
    import numpy as np
    from harness import sp
    with sp.quiet():
        a = cls(params, target_device_idx=-1, **kw)
    a._vv = dict(seeing=sp.val(np.array([see], float), 0), wind_speed=sp.val(np.array(ws, float), 0), wind_direction=sp.val(np.array(wd, float), 0))
    for k, v in a._vv.items():
        a.inputs[k].set(v)
    a.setup()
    return a


def advance(a, t, see=None, ws=None, wd=None):
    import numpy as np
    from harness import sp
    for k, v in (('seeing', None if see is None else [see]), ('wind_speed', ws), ('wind_direction', wd)):
        if v is not None:
            a._vv[k].value = np.array(v, dtype=a._vv[k].value.dtype)
    for v in a._vv.values():
        v.generation_time = t
    sp.step(a, t)


def frames(layers):
    import numpy as np
    return [np.array(l.phaseInNm, dtype=float) for l in layers]


def vk(r, r0, L0):
    import numpy as np
    from scipy.special import kv, gamma
    A = (L0 / r0) ** (5 / 3) * 2 ** (1 / 6) * gamma(11 / 6) / np.pi ** (8 / 3) * ((24 / 5) * gamma(6 / 5)) ** (5 / 6)
    x = 2 * np.pi * np.asarray(r, float) / L0
    return A * (gamma(5 / 6) / 2 ** (1 / 6) - x ** (5 / 6) * kv(5 / 6, x))


def bilin(img, y, x):
    """Bilinear sampling; NaN outside."""
    import numpy as np
    n, m = img.shape
    tiny = 1e-7
    ok = (y >= -tiny) & (x >= -tiny) & (y <= n - 1 + tiny) & (x <= m - 1 + tiny)
    yc, xc = np.clip(y, 0, n - 1), np.clip(x, 0, m - 1)
    i, j = np.minimum(np.floor(yc).astype(int), n - 2), np.minimum(np.floor(xc).astype(int), m - 2)
    fy, fx = yc - i, xc - j
    out = (1 - fy) * ((1 - fx) * img[i, j] + fx * img[i, j + 1]) + fy * ((1 - fx) * img[i + 1, j] + fx * img[i + 1, j + 1])
    return np.where(ok, out, np.nan)


def turned(crop, theta):
    """The layer for wind direction theta, from the layer for direction 0."""
    import numpy as np
    q = theta / 90.0
    if abs(q - round(q)) < 1e-9:
        return np.rot90(crop, int(round(q)))
    L = crop.shape[0]
    c = (L - 1) / 2
    dy, dx = np.mgrid[:L, :L] - c
    th = np.radians(theta)
    w = bilin(crop, np.sin(th) * dx + np.cos(th) * dy + c, np.cos(th) * dx - np.sin(th) * dy + c)
    w[dy ** 2 + dx ** 2 > (c - 1) ** 2] = np.nan
    return w


def config(rng, nlmax=3, big=False):
    import numpy as np
    from harness import sp
    nl = int(rng.integers(1, nlmax + 1))
    pupil = int(sp.pick(rng, [8, 10, 12, 16, 17, 20]))
    pitch = float(sp.pick(rng, [0.05, 0.1, 0.2, 0.125]))
    heights = np.sort(rng.uniform(0, 12000, nl)).round(0)
    if rng.random() < 0.5:
        heights[0] = 0
    fov = float(sp.pick(rng, [0, 0, 20, 60]))
    zen = sp.pick(rng, [None, 0.0, 30.0, 50.0])
    cn2 = rng.uniform(0.1, 1, nl)
    cn2 = (cn2 / cn2.sum())
    L0 = [float(x) for x in rng.uniform(1, 30, nl).round(2)] if rng.random() < 0.5 else [float(round(rng.uniform(1, 30), 2))] * nl
    th = [float(sp.pick(rng, [0, 90, 180, 270, -90, 360, 45, 30, 200.5, -37.0, 137.0, 300.0])) for _ in range(nl)]
    params = sp.simul_params(pixel_pupil=pupil, pixel_pitch=pitch, **({} if zen is None else {'zenithAngleInDeg': zen}))
    return dict(nl=nl, pupil=pupil, pitch=pitch, heights=[float(h) for h in heights], fov=fov, zen=zen, Cn2=[float(x) for x in cn2], L0=L0, th=th, params=params)


@CHECK.section('frozen', quick=60, thorough=1600, precisions=(0, 1), chunk=15)
def frozen(c):
    import numpy as np
    from harness import sp
    from specula.processing_objects.atmo_evolution import AtmoEvolution
    from specula.processing_objects.atmo_evolution_up_down import AtmoEvolutionUpDown
    rng = c.rng
    g = config(rng)
    nl, pitch = g['nl'], g['pitch']
    updown = bool(rng.random() < 0.35)
    N = int(sp.pick(rng, [128, 256]))
    see = float(rng.uniform(0.3, 2))
    ws = rng.uniform(0.5, 25, nl) * pitch / 0.1
    if rng.random() < 0.3:
        ws = np.round(ws / pitch) * pitch
    def ex():
        r = rng.random()
        return 0.0 if r < 0.4 else float(round(rng.uniform(0, 0.2), 3)) if r < 0.7 else [float(x) for x in rng.uniform(0, 0.2, nl).round(3)]
    e1, e2 = ex(), ex()
    seed = int(rng.integers(1, 50))
    kw = dict(L0=g['L0'], heights=g['heights'], Cn2=g['Cn2'], fov=g['fov'], seed=seed, pixel_phasescreens=N, data_dir='scr')
    c.describe(updown=updown, N=N, seed=seed, e1=str(e1), e2=str(e2), ws=[round(float(x), 3) for x in ws], see=round(see, 3), **{k: v for k, v in g.items() if k != 'params'})
    ref = make(AtmoEvolution, g['params'], 1.0, [pitch] * nl, [0.0] * nl, **kw)      # one pixel per second
    L = [l.size[0] for l in ref.outputs['layer_list']]
    Lmax = max(L)
    c.check(all(l.size == (L[i], L[i]) for i, l in enumerate(ref.outputs['layer_list'])), 'layer-not-square')
    if Lmax * 2 > N:
        c.skip()
        return
    npos = N - Lmax
    tape = [None] * nl
    for k in range(npos):
        advance(ref, k * 10 ** 9)
        for i, f in enumerate(frames(ref.outputs['layer_list'])):
            if tape[i] is None:
                tape[i] = np.full((L[i], npos + L[i] - 1), np.nan)
                tape[i][:, :L[i]] = f
            else:
                # the columns seen before must not have changed: whole-pixel motion is exact
                c.near(f[:, :-1], tape[i][:, k:k + L[i] - 1], 'whole-pixel-motion', rtol=1e-9 if c.precision == 0 else 1e-4)
                tape[i][:, k + L[i] - 1] = f[:, -1]
    if updown:
        a = make(AtmoEvolutionUpDown, g['params'], see, ws, g['th'], extra_delta_time_down=e1, extra_delta_time_up=e2, **kw)
        outs = [('layer_list_down', e1), ('layer_list_up', e2)]
    else:
        a = make(AtmoEvolution, g['params'], see, ws, g['th'], extra_delta_time=e1, **kw)
        outs = [('layer_list', e1)]
    pos = {n: np.zeros(nl) for n, _ in outs}
    t = 0
    compared = 0
    nsteps = int(rng.integers(4, 10))
    changing = rng.random() < 0.4
    turning = rng.random() < 0.4
    th = list(g['th'])
    for s in range(nsteps):
        if s:
            dt = int(sp.pick(rng, [1, 5, 20, 50, 173])) * 10 ** 6
            t += dt
            if changing and rng.random() < 0.4:
                ws = ws * rng.uniform(0.5, 1.5, nl)
                see = 0.0 if rng.random() < 0.15 else float(rng.uniform(0.3, 2))
            if turning and rng.random() < 0.4:
                th = [float(sp.pick(rng, [0, 90, 180, 270, -90, 45, 30, 200.5, -37.0, 300.0])) if rng.random() < 0.7 else x for x in th]
                c.saw('wind direction changes')
        else:
            dt = 0
        advance(a, t, see=see, ws=ws, wd=th)
        wsv = np.array(a._vv['wind_speed'].value, float)
        for name, e in outs:
            ev = np.full(nl, e) if np.isscalar(e) else np.array(e)
            p = pos[name] + wsv * (dt / 1e9) / pitch
            off = wsv * ev / pitch
            margin = p + off + np.array(L) - N
            if np.any(np.abs(margin) < 1e-3):
                return
            p = np.where(margin >= 0, 0.0, p)      # back to the beginning of the screen
            pos[name] = p
            eff = p + off
            for i, l in enumerate(a.outputs[name]):
                c.check(l.generation_time == t, 'layer-time', f'{l.generation_time} at {t}')
                q = eff[i]
                k = int(np.floor(q))
                if k + L[i] + 1 > tape[i].shape[1]:
                    continue
                f = q - k
                crop = ((1 - f) * tape[i][:, k:k + L[i]] + f * tape[i][:, k + 1:k + 1 + L[i]]) * see ** (5 / 6)
                w = turned(crop, th[i])
                m = np.isfinite(w)
                got = np.array(l.phaseInNm, float)
                c.check(np.array_equal(np.array(l.A), np.ones(l.size)), 'layer-amplitude')
                sc = np.abs(crop).max() + 1e-9
                c.near(got[m], w[m], 'layer-phase', rtol=0, atol=(1e-8 if c.precision == 0 else 2e-3) * sc,
                       msg=f'{name}[{i}] at t={t}: position {q:.4f} px, direction {th[i]}')
                if s and wsv[i] * dt > 0:
                    compared += 1
    c.saw('frames compared', compared)
    if compared < 3:
        c.skip()


@CHECK.section('infinite', quick=24, thorough=300, precisions=(0, 1), chunk=4)
def infinite(c):
    import numpy as np
    from harness import sp
    from specula.processing_objects.atmo_infinite_evolution import AtmoInfiniteEvolution
    from specula.processing_objects.atmo_infinite_evolution_up_down import AtmoInfiniteEvolutionUpDown
    rng = c.rng
    g = config(rng, nlmax=2)
    nl, pitch = g['nl'], g['pitch']
    updown = bool(rng.random() < 0.5)
    see = float(rng.uniform(0.3, 2))
    aligned = bool(rng.random() < 0.4)
    if aligned:
        g['th'] = [float(sp.pick(rng, [0, 90, 180, 270, -90])) for _ in range(nl)]
    else:
        g['th'] = [float(rng.uniform(-180, 360)) if rng.random() < 0.7 else t for t in g['th']]
    dtms = int(sp.pick(rng, [1, 10, 100]))
    ws = rng.uniform(0.1, 2.3, nl) * pitch * 1000 / dtms      # up to a few pixels per step
    def ex():
        r = rng.random()
        k = dtms / 1000
        return 0.0 if r < 0.3 else float(rng.uniform(0, 4) * k) if r < 0.7 else [float(x) for x in rng.uniform(0, 4, nl) * k]
    e1, e2 = (ex(), ex()) if updown else (0.0 if rng.random() < 0.5 else ex(), 0.0)
    kw = dict(L0=g['L0'], heights=g['heights'], Cn2=g['Cn2'], fov=g['fov'], seed=int(rng.integers(1, 50)))
    c.describe(updown=updown, e1=str(e1), e2=str(e2), dtms=dtms, ws=[round(float(x), 3) for x in ws], see=round(see, 3), kw=str(kw['seed']), **{k: v for k, v in g.items() if k != 'params'})
    v1, v2 = (np.full(nl, e) if np.isscalar(e) else np.array(e) for e in (e1, e2))
    if updown:
        a = make(AtmoInfiniteEvolutionUpDown, g['params'], see, ws, g['th'], extra_delta_time_down=e1, extra_delta_time_up=e2, **kw)
        outs = [('layer_list_down', v1), ('layer_list_up', v2)]
    else:
        a = make(AtmoInfiniteEvolution, g['params'], see, ws, g['th'], extra_delta_time=e1, **kw)
        outs = [('layer_list', v1)]
    # a still twin shows the screen at its origin
    still = make(AtmoInfiniteEvolution, g['params'], see, np.zeros(nl), g['th'], **kw)
    advance(still, 0)
    base = [f / see ** (5 / 6) for f in frames(still.outputs['layer_list'])]
    L = [b.shape[0] for b in base]
    yx = [np.mgrid[:n, :n].astype(float) for n in L]
    travelled = np.zeros(nl)
    t = 0
    compared = 0
    crossed = 0
    whole = {}       # layer -> (position, frame) of states at whole-pixel positions (aligned winds)
    seen = {}        # layer -> list of (position, frame) for the comparison between directions
    tol = 1e-8 if c.precision == 0 else 1e-3
    for s in range(int(rng.integers(5, 12))):
        dt = 0 if s == 0 else dtms * 10 ** 6 * int(sp.pick(rng, [1, 1, 1, 2, 3]))
        if s and rng.random() < 0.15:
            see = float(rng.uniform(0.3, 2))
        t += dt
        advance(a, t, see=see)
        travelled = travelled + ws * dt / 1e9 / pitch
        for name, ev in outs:
            for i, f in enumerate(frames(a.outputs[name])):
                l = a.outputs[name][i]
                c.check(l.generation_time == t, 'layer-time', f'{l.generation_time} at {t}')
                c.check(np.array_equal(np.array(l.A), np.ones(l.size)), 'layer-amplitude')
                f = f / see ** (5 / 6)
                q = travelled[i] + ws[i] * ev[i] / pitch
                th = np.radians(g['th'][i])
                dr, dc = q * np.sin(th), q * np.cos(th)
                w = bilin(base[i], yx[i][0] + dr, yx[i][1] + dc)
                m = np.isfinite(w)
                sc = np.abs(base[i]).max()
                if m.any() and m.sum() > 3:
                    c.near(f[m], w[m], 'rigid-motion', rtol=0, atol=tol * sc, msg=f'{name}[{i}] at step {s}: {q:.4f} px towards {g["th"][i]:.1f} deg')
                    compared += 1 if q > 0 else 0
                seen.setdefault(i, []).append((q, name, s, f))
    # later states against one another: every pair of states at nearby positions shows the same rigid screen
    for i, lst in seen.items():
        th = np.radians(g['th'][i])
        inner = 2
        for n1, (q1, m1, s1, f1) in enumerate(lst):
            for q2, m2, s2, f2 in lst[n1 + 1:]:
                d = q2 - q1
                if m1 == m2 and abs(d) < 1e-9:
                    continue
                dr, dc = d * np.sin(th), d * np.cos(th)
                if abs(d) < 1e-9:
                    m = np.ones_like(f1, bool) if aligned else np.zeros_like(f1, bool)
                    if not aligned:
                        m[inner:-inner, inner:-inner] = True
                    w = f1
                elif abs(dr - round(dr)) < 1e-9 and abs(dc - round(dc)) < 1e-9:
                    w = bilin(f1, yx[i][0] + dr, yx[i][1] + dc)
                    m = np.isfinite(w)
                    # the column or row seen in advance by the interpolation may be refined when winds cross both axes
                    if not aligned:
                        k = np.zeros_like(m)
                        k[inner:-inner, inner:-inner] = True
                        m &= k & np.isfinite(bilin(np.where(k, f1, np.nan), yx[i][0] + dr, yx[i][1] + dc))
                else:
                    continue
                if m.sum() > 3:
                    c.near(f2[m], w[m], 'one-screen' if m1 == m2 else 'up-down-offset', rtol=0, atol=tol * np.abs(f1).max(),
                           msg=f'{m1} step {s1} at {q1:.4f} px vs {m2} step {s2} at {q2:.4f} px')
                    crossed += 1
    # sub-pixel states between two whole-pixel neighbours are bounded by interpolation: low-pass error only
    for i, lst in seen.items():
        th = np.radians(g['th'][i])
        for n1, (q1, m1, s1, f1) in enumerate(lst):
            for q2, m2, s2, f2 in lst[n1 + 1:]:
                d = q2 - q1
                if abs(d) > L[i] / 2 or abs(d) < 1e-9:
                    continue
                w = bilin(f1, yx[i][0] + d * np.sin(th), yx[i][1] + d * np.cos(th))
                m = np.isfinite(w)
                m[:inner] = m[-inner:] = False
                m[:, :inner] = m[:, -inner:] = False
                if m.sum() < 40:
                    continue
                err = (f2 - w)[m]
                grad = np.abs(np.diff(f1, axis=0)).mean() + np.abs(np.diff(f1, axis=1)).mean() + 1e-12
                c.check(np.abs(err).mean() < 2.0 * grad, 'rigid-motion-between-states',
                        f'{m1} step {s1} at {q1:.3f} px -> {m2} step {s2} at {q2:.3f} px: mean error {np.abs(err).mean():.3g}, mean pixel difference {grad:.3g}')
                crossed += 1
    c.saw('states compared with the origin', compared)
    c.saw('pairs of states compared', crossed)
    if compared < 3 and crossed < 3:
        c.skip()


@CHECK.section('restless', quick=8, thorough=80, precisions=(0,), chunk=2)
def restless(c):
    """Long travel of the endless screens: strength and rigidity persist far beyond the initial screen."""
    import numpy as np
    from harness import sp
    from specula.processing_objects.atmo_infinite_evolution import AtmoInfiniteEvolution
    rng = c.rng
    pitch = float(sp.pick(rng, [0.1, 0.2]))
    pupil = int(sp.pick(rng, [20, 32]))
    params = sp.simul_params(pixel_pupil=pupil, pixel_pitch=pitch)
    L0 = float(sp.pick(rng, [2.0, 4.0]))
    th = [float(sp.pick(rng, [0, 90, 180, 270])), float(rng.uniform(0, 360))]
    c.describe(pitch=pitch, pupil=pupil, L0=L0, th=th)
    a = make(AtmoInfiniteEvolution, params, 1.0, [pitch * 1000] * 2, th, L0=[L0] * 2, heights=[0.0, 100.0], Cn2=[0.5, 0.5], seed=int(rng.integers(1, 1000)))
    # 300 pixels away, everything in view is new
    acc = [[], []]
    n = 14
    old = None
    for k in range(n):
        advance(a, int((300 + k * pupil * 1.5) * 10 ** 6) if k else 0)
        if k:
            for i, f in enumerate(frames(a.outputs['layer_list'])):
                s = f * 2 * np.pi / 500 / np.sqrt(0.5)
                acc[i].append([0.5 * np.mean((s[h:] - s[:-h]) ** 2) + 0.5 * np.mean((s[:, h:] - s[:, :-h]) ** 2) for h in (1, 2, 4)])
    for i in range(2):
        r = np.mean(acc[i], axis=0) / vk(np.array([1, 2, 4]) * pitch, R0_1, L0)
        c.check(np.all((r > 0.45) & (r < 1.9)), 'strength-after-travel', f'structure function ratios at 1, 2, 4 pixels {r.round(3)} direction {th[i]:.1f}')
    c.saw('frames after long travel', (n - 1) * 2)


@CHECK.section('strength', quick=30, thorough=700, precisions=(0, 1), chunk=6)
def strength(c):
    import numpy as np
    from harness import sp
    from specula.processing_objects.atmo_evolution import AtmoEvolution
    from specula.processing_objects.atmo_infinite_evolution import AtmoInfiniteEvolution
    from specula.processing_objects.atmo_random_phase import AtmoRandomPhase
    from specula.data_objects.pupilstop import Pupilstop
    rng = c.rng
    kind = sp.pick(rng, ['evolution', 'evolution', 'infinite', 'random', 'random'])
    law = sp.pick(rng, ['seeing', 'zenith', 'Cn2', 'zero'] if kind != 'random' else ['seeing', 'zenith', 'wavelength'])
    pupil = int(sp.pick(rng, [8, 12, 16]))
    pitch = float(sp.pick(rng, [0.05, 0.1, 0.25]))
    seed = int(rng.integers(1, 90))
    L0 = float(rng.uniform(1, 30))
    s1, s2 = [float(x) for x in rng.uniform(0.2, 3, 2)]
    z1, z2 = [float(x) for x in rng.uniform(0, 65, 2)]
    w1, w2 = [float(x) for x in rng.uniform(0.05, 0.95, 2)]
    l1, l2 = [float(x) for x in rng.uniform(400, 2500, 2)]
    c.describe(kind=kind, law=law, pupil=pupil, pitch=pitch, L0=round(L0, 3), s=(s1, s2), z=(z1, z2), w=(w1, w2), l=(l1, l2), seed=seed)
    def airmass(z):
        return 1 / np.cos(np.radians(z))
    t = 7 * 10 ** 6
    def frame(see, zen, cn2, lam):
        params = sp.simul_params(pixel_pupil=pupil, pixel_pitch=pitch, zenithAngleInDeg=zen)
        if kind == 'random':
            with sp.quiet():
                a = AtmoRandomPhase(params, L0=L0, data_dir='scr', wavelengthInNm=lam, pixel_phasescreens=64, seed=seed, target_device_idx=-1)
            st = Pupilstop(params, target_device_idx=-1)
            see_v = sp.val(np.array([see]), 0)
            a.inputs['seeing'].set(see_v)
            a.inputs['pupilstop'].set(st)
            a.setup()
            see_v.generation_time = t
            sp.step(a, t)
            return [np.array(a.outputs['out_layer'].phaseInNm, float)]
        cls = AtmoEvolution if kind == 'evolution' else AtmoInfiniteEvolution
        kw = dict(data_dir='scr', pixel_phasescreens=64) if kind == 'evolution' else {}
        a = make(cls, params, see, [0.0, 0.0], [0.0, 0.0], L0=[L0, L0], heights=[0.0, 5000.0], Cn2=[cn2, 1 - cn2], seed=seed, **kw)
        advance(a, t)
        return frames(a.outputs['layer_list'])
    f1 = frame(s1, z1, w1, l1)
    if law == 'seeing':
        f2, k = frame(s2, z1, w1, l1), [(s2 / s1) ** (5 / 6)] * 2
    elif law == 'zenith':
        f2, k = frame(s1, z2, w1, l1), [(airmass(z2) / airmass(z1)) ** 0.5] * 2
    elif law == 'Cn2':
        f2, k = frame(s1, z1, w2, l1), [(w2 / w1) ** 0.5, ((1 - w2) / (1 - w1)) ** 0.5]
    elif law == 'wavelength':
        f2, k = frame(s1, z1, w1, l2), [1.0]
    else:
        f2, k = frame(0.0, z1, w1, l1), [0.0] * 2
    for a, b, x in zip(f1, f2, k):
        c.check(np.std(a) > 0, 'no-turbulence')
        c.near(b, a * x, f'{law}-scaling', rtol=0, atol=(1e-8 if c.precision == 0 else 3e-4) * np.abs(a).max() * max(x, 1e-3), msg=f'{kind}')
        c.saw(f'{law} law', 1)


@CHECK.section('stats', quick=14, thorough=90, precisions=(0, 1), chunk=2)
def stats(c):
    import numpy as np
    from harness import sp
    from specula.processing_objects.atmo_evolution import AtmoEvolution
    from specula.processing_objects.atmo_infinite_evolution import AtmoInfiniteEvolution
    from specula.processing_objects.atmo_random_phase import AtmoRandomPhase
    from specula.data_objects.pupilstop import Pupilstop
    rng = c.rng
    kind = ['evolution', 'infinite', 'random'][c.i % 3]
    pitch = float(sp.pick(rng, [0.05, 0.1, 0.2]))
    L0 = float(rng.uniform(20, 60) * pitch)
    see = float(rng.uniform(0.4, 1.6))
    zen = float(sp.pick(rng, [0.0, 40.0, 60.0]))
    lam = float(sp.pick(rng, [500.0, 1650.0, 750.0]))
    am = 1 / np.cos(np.radians(zen))
    r0 = R0_1 / see * am ** -0.6
    seed0 = int(rng.integers(1, 5000))
    n = 6 if kind != 'infinite' else 4
    size = {'evolution': 100, 'infinite': 100, 'random': 64}[kind]
    c.describe(kind=kind, pitch=pitch, L0=round(L0, 3), see=round(see, 3), zen=zen, lam=lam, seed0=seed0)
    params = sp.simul_params(pixel_pupil=size, pixel_pitch=pitch, zenithAngleInDeg=zen)
    lags = [1, 2, 4, 8, 16]
    acc = []
    def add(s, w=1.0):
        s = s * 2 * np.pi / 500 / np.sqrt(w)
        acc.append([[np.mean((s[h:] - s[:-h]) ** 2), np.mean((s[:, h:] - s[:, :-h]) ** 2)] for h in lags])
    for k in range(n):
        if kind == 'random':
            with sp.quiet():
                a = AtmoRandomPhase(params, L0=L0, data_dir='scr', wavelengthInNm=lam, pixel_phasescreens=256, seed=seed0 + 7 * k, target_device_idx=-1)
            see_v = sp.val(np.array([see]), 0)
            a.inputs['seeing'].set(see_v)
            a.inputs['pupilstop'].set(Pupilstop(params, target_device_idx=-1))
            a.setup()
            for s in range(8):
                see_v.generation_time = s * 10 ** 6
                sp.step(a, s * 10 ** 6)
                add(np.array(a.outputs['out_layer'].phaseInNm, float))
        else:
            cls = AtmoEvolution if kind == 'evolution' else AtmoInfiniteEvolution
            kw = dict(data_dir='scr', pixel_phasescreens=256) if kind == 'evolution' else {}
            a = make(cls, params, see, [pitch * 1000] * 2, [0.0, 90.0], L0=[L0, L0], heights=[0.0, 3000.0], Cn2=[0.3, 0.7], seed=seed0 + 7 * k, **kw)
            for s in range(2):
                advance(a, s * 100 * 10 ** 6)
                for f, w in zip(frames(a.outputs['layer_list']), (0.3, 0.7)):
                    add(f, w)
    m = np.mean(acc, axis=0)
    r = m.mean(axis=1) / vk(np.array(lags) * pitch, r0, L0)
    c.check(np.all((r > 0.62) & (r < 1.45)), 'structure-function', f'measured/von Karman at lags {lags}: {r.round(3)}')
    iso = m[:, 0] / m[:, 1]
    c.check(np.all((iso > 0.5) & (iso < 2.0)), 'isotropy', f'vertical/horizontal structure function {iso.round(3)}')
    # Kolmogorov slope at small lags
    slope = np.log(r[2] / r[1]) / np.log(2)
    c.check(abs(slope) < 0.3, 'slope', f'exponent differs by {slope:.3f} from von Karman between lags 2 and 4')
    c.saw('screens', len(acc))


@CHECK.section('geometry', quick=60, thorough=1500, precisions=(0, 1), chunk=30)
def geometry(c):
    import numpy as np
    from harness import sp
    from specula.processing_objects.atmo_evolution import AtmoEvolution
    from specula.processing_objects.atmo_infinite_evolution import AtmoInfiniteEvolution
    rng = c.rng
    g = config(rng, nlmax=3)
    cls = AtmoInfiniteEvolution if c.i % 10 == 0 else AtmoEvolution
    fov = float(rng.uniform(0, 120))
    g['heights'] = [float(h) * 0.3 for h in g['heights']]
    pp = [0, 0] if rng.random() < 0.4 else [float(x) for x in (rng.uniform(-1, 1, 2) * 10 * g['pitch']).round(3)]
    fm = None if rng.random() < 0.8 else float(rng.uniform(g['pupil'], 3 * g['pupil']) * g['pitch'])
    c.describe(kind=cls.__name__, fov=round(fov, 3), pp=pp, fm=fm, **{k: v for k, v in g.items() if k not in ('params', 'fov')})
    kw = dict(data_dir='scr', pixel_phasescreens=512) if cls is AtmoEvolution else {}
    a = make(cls, g['params'], 1.0, np.ones(g['nl']), g['th'], L0=g['L0'], heights=g['heights'], Cn2=g['Cn2'], fov=fov, fov_in_m=fm, pupil_position=pp, **kw)
    am = 1 / np.cos(np.radians(g['zen'] or 0.0))
    for h, l in zip(g['heights'], a.outputs['layer_list']):
        need = g['pupil'] + (2 * np.hypot(*pp) + abs(h) * am * fov * np.pi / 180 / 3600) / g['pitch']
        if fm is not None:
            need = fm / g['pitch']
            c.check(need - 2 <= l.size[0] <= need + 1e-3, 'layer-size', f'layer of {l.size[0]} pixels, requested {need:.3f}')
        else:
            c.check(need - 1e-3 <= l.size[0] < need + 2.001, 'layer-size', f'layer at {h} m of {l.size[0]} pixels, needed {need:.3f}')
        c.check(l.size[0] % 2 == 0 and l.size[0] == l.size[1], 'layer-size-parity', f'{l.size}')
        c.near(l.height, h, 'layer-height', rtol=1e-6)
        c.near(l.pixel_pitch, g['pitch'], 'layer-pitch', rtol=1e-6)
        c.saw('layers', 1)
    # refused mistakes
    bad = [x * 1.01 for x in g['Cn2']]
    c.raises(ValueError, lambda: make(cls, g['params'], 1.0, np.ones(g['nl']), g['th'], L0=g['L0'], heights=g['heights'], Cn2=bad, **kw), 'bad-Cn2-accepted')
    c.raises(ValueError, lambda: make(cls, g['params'], 1.0, np.ones(g['nl']), g['th'], L0=g['L0'], heights=g['heights'], Cn2=g['Cn2'], seed=0, **kw), 'bad-seed-accepted')
    if cls is AtmoEvolution:
        c.raises(ValueError, lambda: make(cls, g['params'], 1.0, np.ones(g['nl'] + 1), g['th'], L0=g['L0'], heights=g['heights'], Cn2=g['Cn2'], **kw), 'wind-size-accepted')
        c.raises(ValueError, lambda: make(cls, g['params'], 1.0, np.ones(g['nl']), list(g['th']) + [0.0], L0=g['L0'], heights=g['heights'], Cn2=g['Cn2'], **kw), 'wind-size-accepted')


@CHECK.section('random', quick=40, thorough=900, precisions=(0, 1), chunk=10)
def random_phase(c):
    import numpy as np
    from harness import sp
    from specula.processing_objects.atmo_random_phase import AtmoRandomPhase
    from specula.data_objects.pupilstop import Pupilstop
    from specula.data_objects.source import Source
    rng = c.rng
    pupil = int(sp.pick(rng, [8, 10, 12, 16]))
    N = int(sp.pick(rng, [16, 32]))
    pitch = float(sp.pick(rng, [0.05, 0.1]))
    seed = int(rng.integers(1, 90))
    interval = int(sp.pick(rng, [1, 1, 2, 3]))
    nsrc = int(sp.pick(rng, [0, 1, 2]))
    L0 = float(rng.uniform(1, 30))
    height = float(sp.pick(rng, [0.0, 500.0]))
    c.describe(pupil=pupil, N=N, pitch=pitch, seed=seed, interval=interval, nsrc=nsrc, L0=L0)
    params = sp.simul_params(pixel_pupil=pupil, pixel_pitch=pitch)
    srcs = {f's{i}': Source(polar_coordinates=[i, 0], magnitude=5 + i, wavelengthInNm=600, target_device_idx=-1) for i in range(nsrc)}
    st = Pupilstop(params, target_device_idx=-1)
    st.A = np.array(rng.random((pupil, pupil)), dtype=st.A.dtype)
    def mk(seed, interval):
        with sp.quiet():
            a = AtmoRandomPhase(params, L0=L0, data_dir='scr', source_dict=srcs or None, pixel_phasescreens=N, seed=seed, update_interval=interval, layer_height=height, target_device_idx=-1)
        v = sp.val(np.array([1.0]), 0)
        a.inputs['seeing'].set(v)
        a.inputs['pupilstop'].set(st)
        a.setup()
        return a, v
    a, v = mk(seed, interval)
    b, vb = mk(seed + 1, 1)
    tiles = (N // pupil) ** 2
    nsteps = interval * tiles + 2 * interval
    if nsteps > 60:
        nsteps = 60
    name = 'out_layer' if not srcs else 'out_s0_layer'
    hist = []
    for s in range(nsteps):
        see = float(rng.uniform(0.3, 2))
        v.value[0] = see
        v.generation_time = s * 10 ** 6
        see = float(v.value[0])
        sp.step(a, s * 10 ** 6)
        ref = a.outputs[name]
        for n, o in a.outputs.items():
            c.check(o.generation_time == s * 10 ** 6, 'time', f'{n} at step {s}')
            c.near(o.A, st.A, 'amplitude', rtol=1e-6)
            c.check(np.array_equal(o.phaseInNm, ref.phaseInNm), 'outputs-differ', n)
            if n.endswith('_layer'):
                c.near(o.height, height, 'height', rtol=1e-6)
            elif srcs:
                with sp.quiet():
                    c.near(o.S0, srcs[n[4:-3]].phot_density(), 'source-flux', rtol=1e-5)
        hist.append(np.array(ref.phaseInNm, float) / see ** (5 / 6))
    sc = np.abs(hist[0]).max()
    tol = 1e-8 if c.precision == 0 else 1e-3
    for s in range(1, nsteps):
        same = s // interval == (s - 1) // interval
        d = np.abs(hist[s] - hist[s - 1]).max()
        c.check((d < tol * sc) == same, 'update-interval', f'steps {s - 1}->{s}: difference {d:.3g}, interval {interval}')
    distinct = [hist[k] for k in range(0, nsteps, interval)]
    for i in range(len(distinct)):
        for j in range(i):
            c.check(np.abs(distinct[i] - distinct[j]).max() > 1e-3 * sc, 'screen-repeated', f'updates {j} and {i} (tiles {tiles})')
    if len(distinct) > tiles:
        vb.generation_time = 0
        sp.step(b, 0)
        c.near(distinct[tiles], np.array(b.outputs[name].phaseInNm, float), 'next-seed', rtol=0, atol=tol * sc)
        c.saw('seed changes', 1)
    c.saw('screens', len(distinct))


@CHECK.section('cube', quick=60, thorough=1500, precisions=(0, 1), chunk=20)
def cube(c):
    import numpy as np
    from harness import sp
    from specula.processing_objects.phase_screen_cube import PhaseScreenCube
    from specula.data_objects.spatio_temp_array import SpatioTempArray
    from specula.data_objects.pupilstop import Pupilstop
    from specula.data_objects.source import Source
    rng = c.rng
    pupil = int(sp.pick(rng, [6, 8, 12]))
    pitch = float(sp.pick(rng, [0.05, 0.1]))
    nt = int(rng.integers(2, 8))
    kind = sp.pick(rng, ['same', 'same', 'flat'])
    n = pupil if kind == 'same' else int(sp.pick(rng, [pupil * 2, pupil + 3, pupil // 2]))
    t0 = float(sp.pick(rng, [0.0, 0.0, 0.01]))
    tv = t0 + np.concatenate([[0], np.cumsum(rng.uniform(0.001, 0.05, nt - 1))])
    if kind == 'same':
        data = rng.normal(size=(nt, n, n)) * 300
    else:
        data = np.ones((nt, n, n)) * rng.normal(size=(nt, 1, 1)) * 300
    axis = int(sp.pick(rng, [0, -1]))
    scale = float(sp.pick(rng, [1.0, 0.5, 2.5]))
    nsrc = int(sp.pick(rng, [0, 1, 2]))
    c.describe(pupil=pupil, pitch=pitch, nt=nt, kind=kind, n=n, t0=t0, axis=axis, scale=scale, nsrc=nsrc)
    params = sp.simul_params(pixel_pupil=pupil, pixel_pitch=pitch)
    arr = SpatioTempArray(data if axis == 0 else np.moveaxis(data, 0, -1), tv, time_axis=axis, target_device_idx=-1)
    c.near(arr.get_value(), data, 'time-first layout', rtol=1e-6, scale=300)
    if nt != n and rng.random() < 0.5:
        # new data in either layout
        data = data[::-1] * 0.7
        arr.set_value(data if rng.random() < 0.5 else np.moveaxis(data, 0, -1))
        c.near(arr.get_value(), data, 'time-first layout after set_value', rtol=1e-6, scale=300)
    srcs = {f's{i}': Source(polar_coordinates=[i, 0], magnitude=5 + i, wavelengthInNm=600, target_device_idx=-1) for i in range(nsrc)}
    with sp.quiet():
        p = PhaseScreenCube(params, arr, pixel_scale=pitch if n == pupil else pitch * pupil / n, source_dict=srcs or None, layer_height=100.0, scale_factor=scale, target_device_idx=-1)
    st = Pupilstop(params, target_device_idx=-1)
    p.inputs['pupilstop'].set(st)
    p.setup()
    times = np.sort(np.concatenate([rng.uniform(tv[0], tv[-1], 4), tv[rng.integers(0, nt, 2)]]))
    for s in times:
        t = int(np.ceil(s * 1e9 - 1e-6))
        if t / 1e9 > tv[-1]:
            t -= 1
        if t / 1e9 < tv[0]:
            continue
        sp.step(p, t)
        w = np.array([np.interp(t / 1e9, tv, data[:, i, j]) for i in range(n) for j in range(n)]).reshape(n, n) * scale
        if kind == 'flat':
            w = np.full((pupil, pupil), w[0, 0])
        for name, o in p.outputs.items():
            c.check(o.generation_time == t, 'time', f'{name}: {o.generation_time} at {t}')
            c.near(o.phaseInNm, w, 'screen', rtol=0, atol=(1e-7 if c.precision == 0 else 1e-3) * np.abs(data).max() * scale, msg=f'{name} at t={t}')
            c.near(o.A, st.A, 'amplitude', rtol=1e-6)
        c.saw('interpolated screens', 1)
    c.raises(ValueError, lambda: sp.step(p, int(tv[-1] * 1e9) + 10 ** 6), 'beyond-the-end-accepted')
    if t0 > 0:
        c.raises(ValueError, lambda: sp.step(p, int(t0 * 1e9) // 2), 'before-the-start-accepted')


@CHECK.section('independence', quick=8, thorough=120, precisions=(0, 1), chunk=2)
def independence(c):
    import numpy as np
    from harness import sp
    from specula.processing_objects.atmo_evolution import AtmoEvolution
    from specula.processing_objects.atmo_infinite_evolution import AtmoInfiniteEvolution
    rng = c.rng
    inf = c.i % 4 == 3
    cls = AtmoInfiniteEvolution if inf else AtmoEvolution
    pupil, pitch = 64, 0.1
    L0 = float(rng.uniform(0.6, 1.5))
    nl = 3
    seed = int(rng.integers(1, 10 ** 6))
    same = bool(rng.random() < 0.6)
    l0 = [L0] * nl if same else [L0 * k for k in (1.0, 1.1, 1.2)]
    c.describe(inf=inf, L0=l0, seed=seed)
    params = sp.simul_params(pixel_pupil=pupil, pixel_pitch=pitch)
    kw = {} if inf else dict(data_dir='scr', pixel_phasescreens=128)
    runs = []
    for s in (seed, seed + 11):
        a = make(cls, params, 1.0, [0.0] * nl, [0.0] * nl, L0=l0, heights=[0.0, 10.0, 20.0], Cn2=[1 / 3] * nl, seed=s, **kw)
        advance(a, 0)
        runs += frames(a.outputs['layer_list'])
    again = make(cls, params, 1.0, [0.0] * nl, [0.0] * nl, L0=l0, heights=[0.0, 10.0, 20.0], Cn2=[1 / 3] * nl, seed=seed, **kw)
    advance(again, 0)
    for f, b in zip(frames(again.outputs['layer_list']), runs):
        c.check(np.array_equal(f, b), 'same-seed-differs')
    for i in range(len(runs)):
        for j in range(i):
            for name, b in (('', runs[j]), ('mirrored ', runs[j][:, ::-1]), ('flipped ', runs[j][::-1])):
                x, y = runs[i] - runs[i].mean(), b - b.mean()
                r = float((x * y).sum() / np.sqrt((x * x).sum() * (y * y).sum()))
                # cells of one outer scale are independent: about (6.4 m / L0)^2 of them
                lim = 6.5 * max(l0) / (pupil * pitch) * 1.0
                c.check(abs(r) < min(lim, 0.9), 'correlated-screens', f'{name}screens {j} and {i}: correlation {r:.3f}, limit {lim:.3f}')
                c.saw('pairs', 1)


@CHECK.section('direction', quick=1, thorough=1, precisions=(0,))
def direction(c):
    """Both kinds of atmosphere read the wind direction in the same way."""
    import numpy as np
    from harness import sp
    from specula.processing_objects.atmo_evolution import AtmoEvolution
    from specula.processing_objects.atmo_infinite_evolution import AtmoInfiniteEvolution
    params = sp.simul_params(pixel_pupil=32, pixel_pitch=0.1)
    c.describe(wind_direction=90)
    moved = {}
    for cls, kw in ((AtmoEvolution, dict(data_dir='scr', pixel_phasescreens=128)), (AtmoInfiniteEvolution, {})):
        for th in (0.0, 90.0):
            a = make(cls, params, 1.0, [0.1], [th], L0=[5.0], heights=[0.0], Cn2=[1.0], seed=3, **kw)
            advance(a, 0)
            f0 = frames(a.outputs['layer_list'])[0]
            advance(a, 3 * 10 ** 9)
            f1 = frames(a.outputs['layer_list'])[0]
            best = min(((np.abs(np.roll(f0, (dy, dx), (0, 1)) - f1)[5:-5, 5:-5].mean(), dy, dx) for dy in range(-4, 5) for dx in range(-4, 5)))
            c.check(best[0] < 1e-6, 'no-rigid-motion', f'{cls.__name__} at {th}')
            moved[cls.__name__, th] = best[1:]
            c.saw('displacements measured', 1)
    c.check(moved['AtmoEvolution', 0.0] == moved['AtmoInfiniteEvolution', 0.0], 'zero-direction-differs', f'{moved}')
    c.check(moved['AtmoEvolution', 90.0] == moved['AtmoInfiniteEvolution', 90.0], 'wind-direction-mirrored',
            f'rows, columns moved by wind at 90 degrees: {moved["AtmoEvolution", 90.0]} in AtmoEvolution, {moved["AtmoInfiniteEvolution", 90.0]} in AtmoInfiniteEvolution')
