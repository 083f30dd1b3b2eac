"""C22: photometry, coordinates and unit conversions follow the physics."""
from harness.vf import CheckDef
CHECK = CheckDef('C22', rule=(
    'Random magnitudes, bands, wavelengths, areas, times and coordinates are passed to the real functions and objects; scaling laws (Pogson, linearity, energy per photon), documented zero points, inverse pairs and small-angle geometry '
    'are the oracle, plus whole source-propagation-sensor-detector chains whose photon count is predicted from the magnitude. Air refraction is judged by pressure proportionality, temperature law, humidity factorisation and dispersion; '
    'extended sources by their declared shape. Distinct by parameters.'),
    assumptions=['h=6.626e-34 J s and c=3e8 m/s as documented in n_phot', 'band zero points within 8 percent of those documented (Lena 1996)',
                 'air refraction outside the tabulated windows is not judged', 'x_coord/y_coord of a source at infinite height are not judged'])
H, C = 6.626e-34, 3e8
# documented values (n_phot docstring, Lena 1996): central wavelength, bandwidth, zero point
BANDS = {'U': (3.6e-7, 6.8e-8, 4.35e-8), 'B': (4.4e-7, 9.8e-8, 7.2e-8), 'V': (5.5e-7, 8.9e-8, 3.92e-8), 'R': (7e-7, 2.2e-7, 1.76e-8), 'I': (9e-7, 2.4e-7, 8.3e-9),
         'J': (1.25e-6, 3e-7, 3.4e-9), 'H': (1.65e-6, 3.5e-7, 7e-10), 'K': (2.2e-6, 4e-7, 3.9e-10), 'L': (3.4e-6, 5.5e-7, 8.1e-11), 'M': (5e-6, 3e-7, 2.2e-11)}
MAORY = {'V': (5.4e-7, 9e-8, 3.68e-8), 'R': (6.5e-7, 1.3e-7, 1.77e-8), 'I': (8e-7, 2e-7, 1.19e-8), 'J': (1.25e-6, 3e-7, 2.86e-9), 'H': (1.65e-6, 3.5e-7, 1.08e-9), 'K': (2.2e-6, 4e-7, 3.79e-10)}
ASEC = 3.14159265358979 / 180 / 3600


@CHECK.section('photons', quick=400, thorough=20000, precisions=(0,))
def photons(c):
    """number of photons from a magnitude: Pogson law, linear in time, area, bandwidth; nearest band; user overrides; background by the same law"""
    import numpy as np
    from harness import sp
    from specula.lib.n_phot import n_phot
    rng = c.rng
    model = 'MAORY-1' if rng.random() < 0.3 else 'default'
    tab = MAORY if model == 'MAORY-1' else BANDS
    names = list(tab)
    band = sp.pick(rng, names)
    mag = float(rng.uniform(-5, 25))
    surf, dt = float(10 ** rng.uniform(-2, 3)), float(10 ** rng.uniform(-4, 2))
    mode = sp.pick(rng, ['band', 'lambda', 'near', 'both', 'user', 'sodium'])
    if mode == 'sodium' and model != 'default':
        mode = 'near'
    kw, lam = {}, tab[band][0]
    if mode in ('band', 'both'):
        kw['band'] = band
    if mode == 'both':
        lam = float(rng.uniform(3e-7, 6e-6))
    if mode == 'near':
        mids = sorted(v[0] for v in tab.values())
        lam = float(rng.uniform(mids[0] * 0.9, mids[-1] * 1.1))
        band = min(names, key=lambda n: abs(tab[n][0] - lam))
        dist = sorted(abs(tab[n][0] - lam) for n in names)
        if dist[1] - dist[0] < 1e-10:
            return c.skip()
    if mode == 'sodium':
        lam = 589e-9 + float(rng.uniform(-1, 1)) * 0.9e-10
    if mode in ('lambda', 'near', 'both', 'user', 'sodium'):
        kw['lambda_'] = lam
    w, e0 = tab[band][1:]
    bm = None
    user = mode == 'user' or rng.random() < 0.3
    if mode == 'sodium':
        w, e0 = 1e-8, 3.92e-8
    if user:
        kw['width'] = w = float(10 ** rng.uniform(-10, -6.5))
        kw['e0'] = e0 = float(10 ** rng.uniform(-11, -7))
        kw['back_mag'] = bm = float(rng.uniform(0, 24))
    c.describe(model=model, band=band, mode=mode, mag=mag, surf=surf, dt=dt, lam=lam, user=user)

    def f(m, s=surf, d=dt, **over):
        return n_phot(m, surf=s, delta_t=d, model=model, **{**kw, **over})
    with sp.quiet():
        n, b = f(mag)
        want = lam * dt * surf * w * 1e6 * e0 / (H * C) * 10 ** (-0.4 * mag)
        c.near(n, want, 'photons', rtol=1e-9 if user else 0.02)
        if bm is not None:
            c.near(b, want * 10 ** (0.4 * (mag - bm)), 'background photons', rtol=1e-9)
        else:
            c.check(np.isfinite(b) and b > 0, 'background photons', f'{b}')
        k = float(rng.uniform(0.1, 7))
        c.near(f(mag, s=surf * k)[0], n * k, 'not proportional to area', rtol=1e-9)
        c.near(f(mag, d=dt * k)[0], n * k, 'not proportional to time', rtol=1e-9)
        c.near(f(mag, s=surf * k)[1], b * k, 'background not proportional to area', rtol=1e-9)
        c.near(f(mag, d=dt * k)[1], b * k, 'background not proportional to time', rtol=1e-9)
        c.near(f(mag + k)[0], n * 10 ** (-0.4 * k), 'not Pogson', rtol=1e-9)
        c.near(f(mag + k)[1], b, 'background depends on the source', rtol=1e-12)
        c.near(f(mag, width=2 * w)[0], 2 * f(mag, width=w)[0], 'not proportional to bandwidth', rtol=1e-9)
        c.near(f(mag, back_mag=mag)[1], n, 'background of the same magnitude', rtol=1e-9)
        # the zero point of the band does not depend on how the band was asked for
        if mode in ('band', 'lambda'):
            alt = dict(kw)
            alt.pop('band', None), alt.pop('lambda_', None)
            r = [n_phot(mag, surf=surf, delta_t=dt, model=model, band=band, **alt), n_phot(mag, surf=surf, delta_t=dt, model=model, lambda_=tab[band][0], **alt)]
            c.near(r[0][0], r[1][0], 'band and wavelength disagree', rtol=1e-9, band=band)
            c.near(r[0][1], r[1][1], 'band and wavelength disagree (background)', rtol=1e-9, band=band)
        c.raises(ValueError, lambda: n_phot(mag), 'neither band nor wavelength accepted')
        c.raises(Exception, lambda: n_phot(mag, band='nope', model=model), 'unknown band accepted')
    c.saw('fluxes')


@CHECK.section('source', quick=250, thorough=10000, precisions=(0, 1))
def source(c):
    """Source: coordinates consistent in all units; photon density follows magnitude, wavelength, band and zero point"""
    import numpy as np
    from harness import sp
    from specula.data_objects.source import Source
    rng = c.rng
    r, phi = float(10 ** rng.uniform(-2, 2.5)), float(rng.uniform(-360, 720))
    if rng.random() < .1:
        r = 0.
    err = (float(rng.normal()), float(rng.normal() * 20)) if rng.random() < .4 else (0., 0.)
    if r + err[0] < 0:
        err = (-err[0], err[1])
    h = float(10 ** rng.uniform(3, 7)) if rng.random() < .6 else float('inf')
    mag = float(rng.uniform(-2, 20))
    wl = float(rng.uniform(350, 4000))
    band = sp.pick(rng, ['', '', 'V', 'R', 'J', 'H', 'K'])
    zp = float(10 ** rng.uniform(-11, -7)) if rng.random() < .3 else 0
    c.describe(r=r, phi=phi, err=str(err), h=h, mag=mag, wl=wl, band=band, zp=zp)
    dist = sorted(abs(v[0] - wl * 1e-9) for v in BANDS.values())
    mk = lambda **k: Source(**{**dict(polar_coordinates=[r, phi], magnitude=mag, wavelengthInNm=wl, height=h, band=band, zero_point=zp, error_coord=err, target_device_idx=-1), **k})
    with sp.quiet():
        s = mk()
        R, P = r + err[0], phi + err[1]
        tol = 1e-9 if c.precision == 0 else 1e-6
        c.near(float(s.r_arcsec), R, 'r_arcsec', rtol=tol, atol=1e-5)
        c.near(float(s.r), R * ASEC, 'r', rtol=max(tol, 1e-6), atol=1e-10)
        c.near(float(s.phi_deg), P, 'phi_deg', rtol=tol, atol=tol * 700)
        c.near(float(s.phi), np.radians(P), 'phi', rtol=tol, atol=tol * 12)
        if np.isfinite(h):
            d = h * np.sin(R * ASEC)
            at = d * (1e-6 if c.precision == 0 else 1e-4) + 1e-12
            c.near(float(s.x_coord), d * np.cos(np.radians(P)), 'x_coord', rtol=0, atol=at)
            c.near(float(s.y_coord), d * np.sin(np.radians(P)), 'y_coord', rtol=0, atol=at)
            # polar and Cartesian coordinates are the same point
            c.near(float(np.hypot(s.x_coord, s.y_coord)), h * np.sin(float(s.r)), 'cartesian radius', rtol=1e-5, atol=at)
        if band:
            e0 = BANDS[band][2]
        elif abs(wl - 589) < 0.2 or dist[1] - dist[0] < 2e-10:
            return c.skip()
        else:
            e0 = min(BANDS.values(), key=lambda v: abs(v[0] - wl * 1e-9))[2]
        if zp:
            e0 = zp
        f = float(s.phot_density())
        c.near(f, wl * 1e-9 * 1e-3 * e0 / (H * C) * 10 ** (-0.4 * mag), 'photon density [ph/s/m2/nm]', rtol=1e-6 if zp else 0.02)
        k = float(rng.uniform(0.5, 6))
        c.near(float(mk(magnitude=mag + k).phot_density()), f * 10 ** (-0.4 * k), 'density not Pogson', rtol=1e-9)
        if band or zp:
            c.near(float(mk(wavelengthInNm=wl * k, band=band or 'V').phot_density()), float(mk(band=band or 'V').phot_density()) * k, 'density not proportional to wavelength', rtol=1e-9)
        c.near(float(mk(polar_coordinates=[0, 0]).phot_density()), f, 'density depends on position', rtol=0)
        c.near(float(mk(height=90e3).phot_density()), f, 'density depends on height', rtol=0)
        # reading it back
        t = Source.from_header(s.get_fits_header(), target_device_idx=-1)
        for a in ('r_arcsec', 'phi_deg', 'magnitude', 'wavelengthInNm', 'height', 'band', 'zero_point'):
            c.eq(getattr(t, a), getattr(s, a), 'source header ' + a)
        c.eq(float(t.phot_density()), f, 'density after header round trip')
    c.saw('sources')


@CHECK.section('chain', quick=24, thorough=700, precisions=(0, 1), timeout=600)
def chain(c):
    """photons counted by a detector behind a sensor = density x bandwidth x time x pupil area x efficiency, whatever the propagation and wavefront"""
    import numpy as np
    from harness import sp
    from specula.data_objects.source import Source
    from specula.data_objects.electric_field import ElectricField
    from specula.data_objects.pupilstop import Pupilstop
    from specula.data_objects.layer import Layer
    from specula.processing_objects.atmo_propagation import AtmoPropagation
    from specula.processing_objects.sh import SH
    from specula.processing_objects.modulated_pyramid import ModulatedPyramid
    from specula.processing_objects.ccd import CCD
    rng = c.rng
    dt = float(sp.pick(rng, [0.001, 0.002, 0.0005]))
    N, pitch = 24, float(rng.uniform(0.03, 0.3))
    wl = float(rng.uniform(500, 1700))
    mag, bw, qe = float(rng.uniform(0, 14)), float(rng.uniform(1, 300)), float(rng.uniform(0.1, 1))
    nint = int(rng.integers(1, 4))
    kind = sp.pick(rng, ['sh', 'pyr'])
    obs = float(sp.pick(rng, [0, 0.3]))
    c.describe(kind=kind, mag=mag, bw=bw, qe=qe, nint=nint, wl=wl, pitch=pitch, obs=obs, dt=dt)
    P = sp.simul_params(pixel_pupil=N, pixel_pitch=pitch, time_step=dt)
    with sp.quiet():
        src = Source([0., 0.] if rng.random() < .5 else [float(rng.uniform(0, 5)), float(rng.uniform(0, 360))], mag, wl, target_device_idx=-1)
        stop = Pupilstop(P, obs_diam=obs, target_device_idx=-1)
        L = Layer(N + 8, N + 8, pitch, float(sp.pick(rng, [0, 100.])), target_device_idx=-1)
        prop = AtmoPropagation(P, source_dict={'s': src}, target_device_idx=-1)
        prop.inputs['atmo_layer_list'].set([L])
        prop.inputs['common_layer_list'].set([stop])
        ld = wl * 1e-9 / (N * pitch) / ASEC
        if kind == 'sh':
            sub = 3
            # fov per subap: about 8 lambda/d
            sens = SH(wavelengthInNm=wl, subap_wanted_fov=8 * ld * sub, sensor_pxscale=ld * sub / 2, subap_on_diameter=sub, subap_npx=16, fov_ovs_coeff=1.0, target_device_idx=-1)
            size = sub * 16
        else:
            sens = ModulatedPyramid(P, wl, 20 * ld, 12, 48, mod_amp=float(rng.uniform(1, 3)), mod_step=24, fov_errinf=.6, fov_errsup=2, target_device_idx=-1)
            size = 48
        sens.inputs['in_ef'].set(prop.outputs['out_s_ef'])
        cc = CCD(P, [size, size], dt=dt * nint, bandw=bw, quantum_eff=qe, target_device_idx=-1)
        cc.inputs['in_i'].set(sens.outputs['out_i'])
        got = []

        def hook(t, phase=None):
            pass
        amp = float(rng.uniform(0, 0.05)) * wl
        L.phaseInNm[:] = rng.normal(size=(N + 8, N + 8)) * amp
        objs = [prop, sens, cc]
        for o in objs:
            o.setup()
        t, step = 0, prop.seconds_to_t(dt)
        S0 = float(src.phot_density())
        for k in range(nint * 2):
            L.generation_time = stop.generation_time = t
            for o in objs:
                if o.check_ready(t):
                    o.trigger()
                    o.post_trigger()
            e = prop.outputs['out_s_ef']
            c.near(float(e.S0), S0, 'flux of the propagated field', rtol=1e-6)
            if cc.outputs['out_pixels'].generation_time == t:
                got.append(float(sp.arr(cc.outputs['out_pixels'].pixels).astype(float).sum()))
            t += step
    area = float(sp.arr(stop.A).astype(float).sum()) * pitch ** 2
    want = S0 * bw * dt * nint * area * qe
    c.eq(len(got), 2, 'frames')
    for g in got:
        if kind == 'sh':
            c.near(g, want, 'photons on the detector', rtol=1e-3 if c.precision else 1e-6)
        else:
            # a pyramid loses the light outside its field stop
            c.check(0.5 * want < g <= want * 1.0001, 'photons on the detector', f'{g} of {want}', ratio=g / want)
    c.saw('detector_frames', len(got))


@CHECK.section('air', quick=80, thorough=3000, precisions=(0,))
def air(c):
    """refractivity of air: proportional to pressure, 1/T, normal dispersion in the visible, humidity term separable, tables consistent, scalar = vector"""
    import numpy as np
    from specula.lib.air_refraction import MatharAirRefraction
    rng = c.rng
    m = MatharAirRefraction()
    bands = {'K': (1.3, 2.5), 'L': (2.8, 4.2), 'M': (4.35, 5.3), 'N': (7.5, 14.1), 'Q': (16.0, 28.0)}
    T, Pp, Hh = float(rng.uniform(0, 25)), float(rng.uniform(55e3, 105e3)), float(rng.uniform(0, 100))
    c.describe(T=T, p=Pp, h=Hh)
    n = m.get_refractive_index
    # visible: standard air at 15 C, 1 atm, dry (Ciddor/Edlen values)
    for w, v in ((0.4, 2.8274e-4), (0.55, 2.7780e-4), (0.633, 2.7653e-4), (1.0, 2.7414e-4)):
        c.near(float(n(w * 1e-6)), v, 'standard dry air', rtol=5e-4, wavelength=w)
    w = rng.uniform(0.36, 1.29, 6) * 1e-6
    c.near(n(w, T, Pp, 0.), n(w) * Pp / 101325. * 288.15 / (T + 273.15), 'dry air follows the gas law', rtol=1e-6)
    c.near(n(w, T, 0., 0.), np.zeros(6), 'vacuum refracts', atol=1e-12)
    ws = np.sort(w)
    if np.min(np.diff(ws)) > 1e-12:
        c.check(np.all(np.diff(n(ws, T, Pp, Hh)) < 0), 'normal dispersion', 'refractivity grows with wavelength in the visible')
    # water vapour is less refractive than the air it replaces in the visible, linear in humidity
    h0, h1, h2 = (n(w, T, Pp, x) for x in (0., Hh, Hh / 2))
    c.near(h1 - h0, 2 * (h2 - h0), 'humidity not linear', rtol=1e-6, atol=1e-13)
    if Hh > 5:
        c.check(np.all(h1 < h0), 'humidity sign', 'moist air refracts more in the visible')
    # infrared tables
    b = list(bands)[int(rng.integers(0, 5))]
    lo, hi = bands[b]
    wi = np.linspace(lo * 1.001, hi * 0.999, 25) * 1e-6
    c.near(n(wi, T, Pp, Hh), np.array([float(n(float(x), T, Pp, Hh)) for x in wi]), 'vector and scalar wavelengths differ', rtol=1e-12)
    dry = n(wi, T, Pp, 0.)
    ref = n(1e-6, T, Pp, 0.)
    c.check(np.all(np.abs(dry / ref - 0.9945) < 0.01), 'infrared dry air', f'{b}: {dry.min() / ref} .. {dry.max() / ref}', band=b)
    for x in (60e3, 90e3):
        c.near(n(wi, T, x, 0.), dry * x / Pp, 'infrared dry air not proportional to pressure', rtol=0.005, band=b)
    # temperature law of the dry part: density ~ P/T
    Ts = np.array([-5., 5, 15, 25])
    dP = 20e3
    d = np.array([(n(wi, t, 80e3 + dP, 0.) - n(wi, t, 80e3, 0.)) * (t + 273.15) for t in Ts])
    c.near(d, np.broadcast_to(d.mean(0), d.shape), 'infrared dry air not proportional to 1/T', rtol=5e-3, band=b)
    # the humidity part is (water vapour density at T) x (dispersion): a rank-one table
    hum = np.array([n(wi, t, 80e3, 30.) - n(wi, t, 80e3, 0.) for t in np.array([0., 5, 10, 15, 20, 25])])
    s = np.linalg.svd(hum, compute_uv=False)
    # (the pure rotation band, Q, has temperature dependent line strengths)
    c.check(s[1] < (0.06 if b == 'Q' else 0.006) * s[0], 'humidity table', f'{b}: second/first singular value {s[1] / s[0]:.4f}', band=b)
    # continuity of the two models at 1.3 um
    c.near(float(n(1.3001e-6, T, Pp, Hh)), float(n(1.2999e-6, T, Pp, Hh)), 'models disagree at 1.3 um', rtol=3e-3)
    c.saw('air_states')


@CHECK.section('satellite', quick=120, thorough=5000, precisions=(0,))
def satellite(c):
    """point ahead angle, slewing wind and light travel time"""
    import numpy as np
    from specula.lib import fsoc_lib as fl
    rng = c.rng
    v, Hs, d = float(10 ** rng.uniform(2, 4)), float(10 ** rng.uniform(5, 7.5)), float(rng.uniform(-180, 180))
    n = int(rng.integers(1, 6))
    hs, ws, wd = np.sort(rng.uniform(0, 20e3, n)), rng.uniform(0, 40, n), rng.uniform(-180, 180, n)
    c.describe(v=v, Hs=Hs, d=d, n=n)
    cl = 299792458.0
    paa = float(fl.calc_paa(v))
    c.near(paa, 2 * v / cl / ASEC, 'point ahead angle', rtol=1e-9)
    s, a = fl.calc_effective_wind_speed(hs, ws, wd, Hs, v, d)
    s0, a0 = fl.calc_effective_wind_speed(hs, ws * 0, wd, Hs, v, d)
    # composition of vectors: the effective wind minus the wind is the slewing wind, along the satellite direction
    vec = lambda m, ang: np.array([m * np.sin(np.radians(ang)), m * np.cos(np.radians(ang))])
    c.near(vec(s, a), vec(ws, wd) + vec(s0, a0), 'wind vectors do not add', rtol=0, atol=1e-8 * (1 + np.max(s)))
    c.near(vec(s0, a0), vec(s0, np.full(n, d)), 'slewing wind is not along the motion', rtol=0, atol=1e-8 * (1 + np.max(s0)))
    c.near(s0 * hs[-1], s0[-1] * hs, 'slewing wind not proportional to height', rtol=1e-6, atol=1e-6)
    sb, ab = fl.calc_effective_wind_speed(hs, ws, wd, Hs, 0.0, d)
    c.near(vec(sb, ab), vec(ws, wd), 'a still satellite changes the wind', rtol=0, atol=1e-9 * 50)
    s2, _ = fl.calc_effective_wind_speed(hs, ws * 0, wd, Hs, 2 * v, d)
    c.near(s2, 2 * s0, 'slewing wind not proportional to speed', rtol=1e-6, atol=1e-9)
    z = float(rng.uniform(0, 70))
    up, dn = fl.calc_timing_uplink_downlink(z, Hs, hs)
    am = 1 / np.cos(np.radians(z))
    c.near(dn, hs * am / cl, 'downlink time', rtol=1e-9)
    c.near(up + dn, np.full(n, 2 * Hs * am / cl), 'round trip time', rtol=1e-9)
    c.saw('passes')


@CHECK.section('seeing', quick=100, thorough=3000, precisions=(0,))
def seeing(c):
    """r0, seeing and Cn2 conversions are mutually inverse and have the right exponents"""
    from specula.data_objects import infinite_phase_screen as ip
    rng = c.rng
    s, wl = float(rng.uniform(0.2, 4)), float(rng.uniform(300, 3000)) * 1e-9
    k = float(rng.uniform(0.3, 5))
    c.describe(s=s, wl=wl, k=k)
    r0 = ip.seeing_to_r0(s, wl)
    c.near(r0, 0.9759 * wl / (s * ASEC), 'r0', rtol=1e-5)
    c.near(ip.r0_to_seeing(r0, wl), s, 'seeing -> r0 -> seeing', rtol=1e-9)
    c.near(ip.seeing_to_r0(ip.r0_to_seeing(r0 * k, wl), wl), r0 * k, 'r0 -> seeing -> r0', rtol=1e-9)
    c.near(ip.seeing_to_r0(s), ip.seeing_to_r0(s, 500e-9), 'default wavelength', rtol=1e-12)
    cn2 = float(10 ** rng.uniform(-14, -11))
    c.near(ip.cn2_to_r0(cn2 * k, wl), ip.cn2_to_r0(cn2, wl) * k ** -0.6, 'r0 exponent in cn2', rtol=1e-9)
    c.near(ip.cn2_to_r0(cn2, wl * k), ip.cn2_to_r0(cn2, wl) * k ** 1.2, 'r0 exponent in wavelength', rtol=1e-9)
    c.near(ip.cn2_to_seeing(cn2, wl), ip.r0_to_seeing(ip.cn2_to_r0(cn2, wl), wl), 'cn2 -> seeing', rtol=1e-9)
    c.near(ip.cn2_to_r0(cn2, wl), (0.423 * (2 * 3.141592653589793 / wl) ** 2 * cn2) ** -0.6, 'cn2 -> r0', rtol=1e-9)
    c.saw('conversions')


@CHECK.section('fft_geometry', quick=300, thorough=10000, precisions=(0,))
def fft_geometry(c):
    """calc_geometry: the reported FFT grid delivers at least the accepted field of view and the requested resolution, or refuses"""
    import numpy as np
    from harness import sp
    from specula.lib.calc_geometry import calc_geometry
    rng = c.rng
    D = 2 * int(rng.integers(4, 200))
    pitch = float(10 ** rng.uniform(-2.5, 0))
    wl = float(rng.uniform(400, 5000))
    ei, es, fr = float(rng.uniform(0, 0.6)), float(rng.uniform(0, 2)), float(rng.uniform(1.0, 6))
    internal = wl * 1e-9 / pitch / ASEC
    fov = internal * float(10 ** rng.uniform(-0.7, 1.0))
    c.describe(D=D, pitch=pitch, wl=wl, ei=ei, es=es, fr=fr, fov=fov)
    try:
        with sp.quiet():
            g = calc_geometry(D, pitch, wl, fov, fov_errinf=ei, fov_errsup=es, fft_res=fr)
    except ValueError:
        # refused: too large a field, or no interpolation factor stays within the errors
        k = int(np.ceil(fov * (1 - ei) / internal - 1e-9))
        c.check(internal > fov * (1 + es) * (1 - 1e-6) or fov * (1 - ei) > internal * k * (1 - 1e-6), 'acceptable geometry refused', f'internal {internal} wanted {fov}')
        c.saw('refused')
        return
    c.check(internal <= fov * (1 + es) * (1 + 1e-6), 'field of view above the accepted maximum', f'{internal} > {fov}*(1+{es})')
    k = g['fov_res']
    c.check(k == int(k) and k >= 1, 'interpolation factor', str(k))
    c.check(internal * k >= fov * (1 - ei) * (1 - 1e-6), 'field of view below the accepted minimum', f'{internal * k} < {fov}*(1-{ei})')
    c.check(k == 1 or internal * (k - 1) < fov * (1 - ei) * (1 + 1e-6), 'interpolation factor larger than needed', str(k))
    c.eq(g['fft_sampling'], D * k, 'pupil sampling')
    c.eq(g['fft_sampling'] + g['fft_padding'], g['fft_totsize'], 'sampling + padding is not the total size')
    c.eq(g['fft_totsize'] % 2, 0, 'odd FFT size')
    c.near(g['fft_res'], g['fft_totsize'] / (D * k), 'resolution', rtol=1e-9)
    c.check(abs(g['fft_totsize'] - D * k * fr) <= 1.0 + 1e-6, 'FFT size is not the requested resolution', f"{g['fft_totsize']} vs {D * k * fr}")
    c.near(g['fp_masking'], min(1.0, fov / (internal * k)), 'focal plane mask', rtol=1e-5)
    c.saw('geometries')


@CHECK.section('plate_scale', quick=25, thorough=600, precisions=(0, 1))
def plate_scale(c):
    """plate-scale coefficients: the ground mirror shape that cancels the focus/astigmatism of an upper mirror on axis, whatever its first mode and mode-to-command matrix"""
    import numpy as np
    from harness import sp
    from specula.processing_objects.dm import DM
    from specula.data_objects.m2c import M2C
    from specula.lib.platescale_coeff import platescale_coeff
    rng = c.rng
    N = 2 * int(rng.integers(8, 17))
    P = sp.simul_params(pixel_pupil=N, pixel_pitch=0.1)
    nm = int(rng.integers(8, 14))
    sm = [int(rng.integers(0, 3)) for _ in range(2)] + ([3] if rng.random() < .3 else [])
    sizes = [N + 2 * int(rng.integers(0, 9)) for _ in sm]
    gain = [float(rng.choice([-1, 1]) * rng.uniform(0.3, 3)) for _ in sm]
    m2c = rng.random() < .4
    c.describe(N=N, nm=nm, sm=str(sm), sizes=str(sizes), m2c=m2c, gain=str(gain))
    with sp.quiet():
        mk = lambda s, n, **k: DM(P, type_str='zernike', nmodes=nm, npixels=n, height=0, start_mode=s, target_device_idx=-1, **k)
        g = mk(None, N)
        # piston in the modes of the ground mirror is not part of the correction
        g.ifunc = g.ifunc + rng.uniform(-2, 2, (nm, 1))
        up = []
        for s, n, k in zip(sm, sizes, gain):
            d = mk(s, n, **({'m2c': M2C(np.eye(nm) * k, target_device_idx=-1)} if m2c else {}))
            if not m2c:
                d.ifunc = d.ifunc * k
            up.append(d)
        co = platescale_coeff([g] + up, [0] + sm, N)
    co = np.asarray(co, dtype=float)
    c.eq(co.shape, (len(sm), 3), 'coefficients shape')

    def shape(d, i):
        m = sp.arr(d.mask).astype(float)
        s = np.zeros(m.shape)
        s[np.where(m)] = sp.arr(d.ifunc)[i].astype(float)
        o = (m.shape[0] - N) // 2
        return s[o:o + N, o:o + N]
    gm = sp.arr(g.mask) > 0
    a = np.array([shape(g, i)[gm] for i in (2, 3, 4)])
    a -= a.mean(1, keepdims=True)
    for k, (s, d) in enumerate(zip(sm, up)):
        if s > 2:
            c.near(co[k], np.zeros(3), 'a mirror without these modes has a coefficient', rtol=0)
            continue
        b = np.array([shape(d, i)[gm] for i in (2, 3, 4)]) * (gain[k] if m2c else 1)
        b -= b.mean(1, keepdims=True)
        want = np.array([np.linalg.lstsq(a.T, b[i], rcond=None)[0][i] for i in range(3)])
        c.near(co[k], want, 'plate scale coefficient', rtol=1e-3 if c.precision else 1e-6, atol=1e-4 if c.precision else 1e-9, start=s)
        res = np.linalg.norm(b - co[k][:, None] * a)
        c.check(res <= np.linalg.norm(b) * (1 + 1e-6), 'correction makes it worse', f'{res} > {np.linalg.norm(b)}', start=s)
    c.saw('mirrors', len(sm))


@CHECK.section('extended_source', quick=80, thorough=2500, precisions=(0, 1))
def extended_source(c):
    """extended sources: points within the declared shape, symmetric, normalised flux; angles and heights converted to radians of Zernike tilt and focus"""
    import numpy as np
    from harness import sp
    from specula.processing_objects.extended_source import ExtendedSource
    rng = c.rng
    N, pitch = 2 * int(rng.integers(10, 40)), float(rng.uniform(0.02, 0.2))
    D = N * pitch
    zen = float(sp.pick(rng, [0, 0, 30, 55]))
    P = sp.simul_params(pixel_pupil=N, pixel_pitch=pitch, zenithAngleInDeg=zen)
    wl = float(rng.uniform(400, 2000))
    ld = wl * 1e-9 / D / ASEC
    st = sp.pick(rng, ['POINT_SOURCE', 'TOPHAT', 'GAUSS', 'FROM_PSF'])
    sa = {'POINT_SOURCE': 'CARTESIAN', 'TOPHAT': sp.pick(rng, ['CARTESIAN', 'POLAR', 'RINGS']), 'GAUSS': sp.pick(rng, ['CARTESIAN', 'RINGS']), 'FROM_PSF': sp.pick(rng, ['CARTESIAN', 'POLAR'])}[st]
    size = float(rng.uniform(8, 20)) * ld
    samp = float(rng.uniform(0.5, 1.5))
    kw = dict(sampling_lambda_over_d=samp, sampling_type=sa)
    am = 1 / np.cos(np.radians(zen))
    if st in ('TOPHAT', 'GAUSS'):
        kw['size_obj'] = size
        if sa == 'RINGS':
            kw['n_rings'] = int(rng.integers(2, 6))
    psf = None
    if st == 'FROM_PSF':
        ps = 2 * int(rng.integers(6, 14))
        yy, xx = np.mgrid[:ps, :ps] - ps / 2.
        cx, cy = rng.uniform(-1, 1, 2) * 0.2 * ps
        psf = np.exp(-((xx - cx) ** 2 + (yy - cy) ** 2) / (2 * (0.12 * ps) ** 2))
        kw['initial_psf'], kw['pixel_scale_psf'] = psf, samp * ld * float(rng.uniform(0.4, 1.0))
    three = rng.random() < .4
    hs = prof = foc = tt = None
    if three:
        nl = int(rng.integers(2, 5))
        hs = [float(x) for x in 90e3 + rng.uniform(-1, 1, nl) * 8e3]
        prof = [float(x) for x in rng.dirichlet(np.ones(nl))]
        foc = 90e3 if rng.random() < .7 else None
        tt = rng.normal(size=(nl, 2)) * ld if rng.random() < .5 else None
        kw.update(layer_height=list(hs), intensity_profile=list(prof), focus_height=foc, tt_profile=tt)
    c.describe(st=st, sa=sa, size=size, samp=samp, wl=wl, N=N, pitch=pitch, zen=zen, layers=str(hs), foc=foc, tt=tt is not None)
    with sp.quiet():
        s = ExtendedSource(P, wl, st, target_device_idx=-1, **kw)
    co = np.asarray(sp.arr(s.outputs['coeff'].value), dtype=float)
    c.eq(co.shape, (s.npoints, 4), 'coefficients shape')
    c.check(np.all(np.isfinite(co)), 'non-finite coefficients', f'{np.sum(~np.isfinite(co))} of {co.size}')
    f = co[:, 3]
    c.check(np.all(f >= 0), 'negative flux', str(f.min()))
    c.near(f.sum(), 1.0, 'total flux', rtol=1e-5)
    # a tilt of coefficient a [rad rms Zernike] is 4a peak to valley over the pupil diameter
    to_arcsec = wl * 1e-9 / (2 * np.pi) * 4 / D / ASEC
    xy = co[:, :2] * to_arcsec
    c.near(xy, np.stack([np.asarray(s.xx_arcsec, dtype=float), np.asarray(s.yy_arcsec, dtype=float)], 1), 'tilt coefficients are not the positions', rtol=1e-5, atol=1e-6 * size)
    # points fainter than a fraction of the mean are left out, the others are not touched
    thr = float(rng.uniform(0.1, 1.5))
    if np.all(np.abs(f / f.mean() - thr) > 1e-4):
        with sp.quiet():
            u = ExtendedSource(P, wl, st, target_device_idx=-1, flux_threshold=thr, **kw)
        cu = np.asarray(sp.arr(u.outputs['coeff'].value), dtype=float)
        keep = f > thr * f.mean()
        c.eq(u.npoints, int(keep.sum()), 'points above the flux threshold')
        if cu.shape == (int(keep.sum()), 4) and len(cu):
            c.near(cu[:, :3], co[keep, :3], 'positions above the flux threshold', rtol=1e-6, atol=1e-9)
            c.near(cu[:, 3] / cu[:, 3].sum(), f[keep] / f[keep].sum(), 'flux above the threshold', rtol=1e-5)
    parts = np.array_split(np.arange(len(f)), len(hs)) if three else [np.arange(len(f))]
    for k, idx in enumerate(parts):
        p, w = xy[idx], f[idx]
        h0 = hs[k] if three else None
        if three:
            c.near(w.sum(), prof[k], 'flux of a layer', rtol=1e-5)
            if tt is not None:
                p = p - tt[k]
            z = co[idx, 2]
            if foc is None:
                c.check(np.all(z == 0), 'focus without a focus height', str(z[:3]))
            else:
                # sag difference D^2/8 (1/hf - 1/h); focus Zernike has peak to valley 2 sqrt(3)
                want = D ** 2 / 8 * (1 / (foc * am) - 1 / (h0 * am)) / (2 * np.sqrt(3)) * 2 * np.pi / (wl * 1e-9)
                c.near(z, np.full(len(z), want), 'focus coefficient', rtol=0.12, atol=1e-9)
                c.near(z, np.full(len(z), z[0]), 'focus differs within a layer', rtol=0)
        else:
            c.check(np.all(co[:, 2] == 0), 'focus of a flat source', str(co[:3, 2]))
        r = np.hypot(*p.T)
        cen = (p * w[:, None]).sum(0) / w.sum()
        if st == 'POINT_SOURCE':
            c.near(r, np.zeros(1), 'point source off axis', atol=1e-6 * ld)
        if st == 'TOPHAT':
            c.check(r.max() <= size / 2 * (1 + 1e-5), 'point outside the disk', f'{r.max()} > {size / 2}')
            c.check(r.max() >= size / 2 * 0.6, 'disk not filled', f'{r.max()} of {size / 2}')
            c.near(w, np.full(len(w), w[0]), 'disk not uniform', rtol=1e-5)
            c.near(cen, np.zeros(2), 'disk off centre', rtol=0, atol=0.02 * size)
        if st == 'GAUSS':
            sg = size / 2.35482
            c.near(w / w.max(), np.exp(-(r ** 2 - r[np.argmax(w)] ** 2) / (2 * sg ** 2)), 'gaussian profile', rtol=1e-4, atol=1e-6)
            c.near(cen, np.zeros(2), 'gaussian off centre', rtol=0, atol=0.02 * size)
        if st == 'FROM_PSF':
            # flux of each point is the PSF there (centre at size/2)
            pix = kw['pixel_scale_psf']
            q = p / pix + psf.shape[0] / 2.
            lim = psf.shape[0] - 1
            ins = np.all((q >= 0) & (q <= lim), 1)
            i = np.clip(np.floor(q).astype(int), 0, lim - 1)
            fx, fy = (q - i).T
            v = psf[i[:, 1], i[:, 0]] * (1 - fx) * (1 - fy) + psf[i[:, 1], i[:, 0] + 1] * fx * (1 - fy) + psf[i[:, 1] + 1, i[:, 0]] * (1 - fx) * fy + psf[i[:, 1] + 1, i[:, 0] + 1] * fx * fy
            kk = np.argmax(v * ins)
            c.near((w / w[kk])[ins], (v / v[kk])[ins], 'flux does not follow the PSF', rtol=0, atol=2e-3 if c.precision else 1e-4)
            c.near(cen, np.array([cx, cy]) * pix, 'source centre is not the PSF centre', rtol=0, atol=0.1 * psf.shape[0] * pix)
    # runs without a PSF connected, and follows the PSF when one arrives
    if st == 'FROM_PSF':
        from specula.base_value import BaseValue
        with sp.quiet():
            s.setup()
            if s.check_ready(0):
                s.trigger()
                s.post_trigger()
        c.near(np.asarray(sp.arr(s.outputs['coeff'].value), dtype=float), co, 'coefficients change without a new PSF', rtol=1e-6, atol=1e-9)
        v = BaseValue(target_device_idx=-1)
        v.value = np.ascontiguousarray(psf[::-1, ::-1]).astype(s.dtype)
        v.generation_time = 1
        s.inputs['psf'].set(v)
        kw2 = {**kw, 'initial_psf': sp.arr(v.value)}
        with sp.quiet():
            s.setup()
            if s.check_ready(1):
                s.trigger()
                s.post_trigger()
            t = ExtendedSource(P, wl, st, target_device_idx=-1, **kw2)
        c.near(np.asarray(sp.arr(s.outputs['coeff'].value), dtype=float), np.asarray(sp.arr(t.outputs['coeff'].value), dtype=float), 'updated source', rtol=1e-5, atol=1e-7)
        c.eq(s.outputs['coeff'].generation_time, 1, 'updated source time')
        # a PSF of another size is cut or padded about its centre when this is requested
        k = int(rng.integers(-3, 4))
        base = rng.uniform(0.5, 1, psf.shape)
        if k >= 0:
            inp, eff = np.pad(base, k, constant_values=0.7), base
        else:
            inp, eff = base[-k:k, -k:k], np.pad(base[-k:k, -k:k], -k)
        with sp.quiet():
            a = ExtendedSource(P, wl, st, target_device_idx=-1, crop_psf=True, **kw)
            v2 = BaseValue(target_device_idx=-1)
            v2.value = np.ascontiguousarray(inp).astype(s.dtype)
            v2.generation_time = 2
            a.inputs['psf'].set(v2)
            a.setup()
            sp.step(a, 2)
            t = ExtendedSource(P, wl, st, target_device_idx=-1, **{**kw, 'initial_psf': eff})
        c.near(np.asarray(sp.arr(a.outputs['coeff'].value), dtype=float), np.asarray(sp.arr(t.outputs['coeff'].value), dtype=float), 'PSF of another size', rtol=1e-5, atol=1e-7)
        c.eq(np.asarray(v2.value), inp.astype(s.dtype), 'received PSF modified')
    c.saw('extended_sources')
    c.saw('points', len(f))


@CHECK.section('power', quick=60, thorough=2000, precisions=(0, 1))
def power(c):
    """power loss: decibels of the received flux; laser launch telescope: focus distance follows the airmass"""
    import numpy as np
    from harness import sp
    from specula.processing_objects.power_loss import PowerLoss
    from specula.data_objects.laser_launch_telescope import LaserLaunchTelescope
    rng = c.rng
    N, pitch, wl = int(rng.integers(8, 80)), float(rng.uniform(0.005, 0.1)), float(rng.uniform(500, 2000))
    nd, L, rd = int(rng.integers(1, 6)), float(10 ** rng.uniform(5, 7.6)), float(rng.uniform(0.01, 1))
    sr = float(10 ** rng.uniform(-4, 0))
    c.describe(N=N, pitch=pitch, wl=wl, nd=nd, L=L, rd=rd, sr=sr)
    P = sp.simul_params(pixel_pupil=N, pixel_pitch=pitch)

    def loss(sr, wl=wl, nd=nd, L=L, rd=rd):
        with sp.quiet():
            o = PowerLoss(P, wl, nd, L, rd, target_device_idx=-1)
            o.inputs['se_sr'].set(sp.val(np.array(sr, dtype=o.dtype), t=0))
            o.setup()
            sp.step(o, 0)
        c.eq(o.outputs['out_power_loss'].generation_time, 0, 'power loss time')
        return float(o.outputs['out_power_loss'].value)
    p = loss(sr)
    c.near(p, 10 * np.log10(sr * rd * N * nd * pitch / (wl * 1e-9 * L)), 'power loss', rtol=1e-5, atol=1e-4)
    k = float(rng.uniform(1.5, 10))
    d = 10 * np.log10(k)
    c.near(loss(sr / k), p - d, 'loss in flux', rtol=1e-5, atol=1e-4)
    c.near(loss(sr, L=L * k), p - d, 'loss in distance', rtol=1e-5, atol=1e-4)
    c.near(loss(sr, rd=rd * k), p + d, 'gain in receiver', rtol=1e-5, atol=1e-4)
    for bad in (dict(wl=0.), dict(nd=0), dict(L=-1.), dict(rd=0.)):
        c.raises(ValueError, lambda: loss(sr, **bad), 'non-physical parameter accepted')
    zen = float(rng.uniform(0, 70))
    f = float(rng.uniform(1e3, 1e5))
    with sp.quiet():
        t = LaserLaunchTelescope(sp.simul_params(zenithAngleInDeg=zen), spot_size=1., tel_position=[1., 2., 3.], beacon_focus=f, target_device_idx=-1)
    c.near(float(t.beacon_focus), f / np.cos(np.radians(zen)), 'beacon focus', rtol=1e-5)
    c.saw('links')


@CHECK.section('live', quick=4, thorough=60, timeout=900)
def live(c):
    """in whole simulations: every propagated field carries the photon density of its source and sensors deliver density x area"""
    from harness import zoo, monitor, sp
    import numpy as np
    params, info = zoo.system(c.rng, nsteps=4, seeds=int(c.rng.integers(1, 1000)), prec=c.precision)
    c.describe(info=str({k: v for k, v in info.items() if isinstance(v, (int, float, str))})[:300])
    seen = []

    def grab(simul):
        for name, o in simul.objs.items():
            if type(o).__name__ in ('AtmoPropagation', 'AtmoRandomPhase', 'PhaseScreenCube'):
                for sn, s in o.source_dict.items():
                    e = o.outputs.get('out_' + sn + '_ef')
                    if e is not None:
                        seen.append((name, sn, float(e.S0), float(s.phot_density())))
            if type(o).__name__ in ('SH', 'ModulatedPyramid'):
                e = o.local_inputs['in_ef']
                tot = float(sp.arr(o.outputs['out_i'].i).astype(float).sum())
                want = float(e.S0) * float(sp.arr(e.A).astype(float).sum()) * float(e.pixel_pitch) ** 2
                seen.append((name, 'sensor', tot, want))
    with sp.quiet():
        simul = sp.run_simul(params)
    grab(simul)
    for name, sn, a, b in seen:
        if sn == 'sensor':
            c.check(0 < a <= b * 1.001, 'sensor delivers more light than it receives', f'{name}: {a} of {b}', object=name)
            c.saw('sensors')
        else:
            c.near(a, b, 'flux of propagated field', rtol=1e-6, object=name, source=sn)
            c.saw('propagated_fields')
