"""C25: what the FieldAnalyser computes from stored telemetry is what an on-line branch computed in the original run."""
from harness.vf import CheckDef
CHECK = CheckDef('C25', rule=(
    'Random complete AO systems (all atmosphere kinds, sensors, one or two DMs, random controllers) run once with extra science directions observed on line by real PSF, ModalAnalysis and field branches, everything recorded by a real DataStore. '
    'The real FieldAnalyser then recomputes the same directions from the stored files, in other orders, numbers, array layouts and precision states, with results kept in cached files and repeated with other arguments; every result is '
    'compared with the on-line branch or with a fresh computation in an empty directory. Non-trivial: at least one direction compared; distinct by system and request.'),
    assumptions=['science sources are at infinity', 'the propagation object is called prop and the commands of every DM are stored by one DataStore (the layout the tool documents)',
                 'a 2x2 coordinate array is read as [[r1, r2], [theta1, theta2]] (pinned by an existing test)'])


def load(path, name, fmt):
    import pickle
    from astropy.io import fits
    if fmt == 'pickle':
        with open(f'{path}/{name}.pickle', 'rb') as f:
            return pickle.load(f)['data']
    with fits.open(f'{path}/{name}.fits') as h:
        return h[0].data.copy()


def rand_coords(rng, n):
    out = []
    while len(out) < n:
        r = round(float(rng.uniform(0, 18)), int(rng.integers(0, 4)))
        th = round(float(rng.uniform(0, 360)), int(rng.integers(0, 4)))
        if rng.random() < 0.2:
            th -= 360
        if rng.random() < 0.15:
            r = th = 0.0
        if out and rng.random() < 0.25:
            # very close to an earlier direction
            r, th = out[0][0] + float(rng.choice([0.02, 0.04])), out[0][1] + float(rng.choice([0, 0.03]))
        if all((r, th) != o for o in out):
            out.append((r, th))
    return out


def record(c, rng, coords, wl, start):
    """one run with on-line branches for every direction; returns (tracking number, results per direction, description)"""
    import os
    from harness import sp, zoo
    nsteps = int(rng.integers(3, 7))
    params, info = zoo.system(rng, nsteps=nsteps, prec=c.precision)
    nd = float(sp.pick(rng, [1.0, 2.0, 3.0, 2.5]))
    ma = {'type_str': 'zernike', 'npixels': 32, 'nmodes': int(rng.integers(2, 12)), 'obsratio': float(sp.pick(rng, [0.0, 0.1]))}
    if rng.random() < 0.3:
        ma['dorms'] = True
    fmt = sp.pick(rng, ['fits', 'fits', 'pickle'])
    items = ['comm-control.out_comm']
    if info['wfs'] != 'none' and rng.random() < 0.5:
        items.append('modes-rec.out_modes')
    for k, (r, th) in enumerate(coords):
        params[f'sci{k}'] = {'class': 'Source', 'polar_coordinates': [r, th], 'magnitude': 8, 'wavelengthInNm': wl}
        params['prop']['source_dict_ref'].append(f'sci{k}')
        params['prop']['outputs'].append(f'out_sci{k}_ef')
        ef = f'prop.out_sci{k}_ef'
        params[f'psf{k}'] = {'class': 'PSF', 'simul_params_ref': 'main', 'wavelengthInNm': wl, 'nd': nd, 'start_time': start, 'verbose': False, 'inputs': {'in_ef': ef}, 'outputs': ['out_int_psf', 'out_int_sr']}
        params[f'ma{k}'] = dict(ma, **{'class': 'ModalAnalysis', 'inputs': {'in_ef': ef}, 'outputs': ['out_modes']})
        items += [f'opsf{k}-psf{k}.out_int_psf', f'osr{k}-psf{k}.out_int_sr', f'oma{k}-ma{k}.out_modes', f'oef{k}-{ef}']
    params['store'] = {'class': 'DataStore', 'store_dir': './data', 'data_format': fmt, 'inputs': {'input_list': items}}
    sp.run_simul(params)
    tn = os.listdir('data')[0]
    online = [{n: load(f'data/{tn}', f'o{n}{k}', fmt) for n in ('psf', 'sr', 'ma', 'ef')} for k in range(len(coords))]
    info['dm0'] = [p for p in params.values() if p['class'] == 'DM' and p.get('height') == 0]
    return tn, online, info['dm0'], dict(nd=nd, ma=ma, nsteps=nsteps, fmt=fmt, start=start, atmo=info['atmo'], wfs=info['wfs'], ndm=info['ndm'], ctl=info['ctl'])


def layout(rng, coords):
    """the same directions in one of the accepted array layouts"""
    import numpy as np
    a = np.array(coords, dtype=float)
    if len(coords) == 2 or (len(coords) > 2 and rng.random() < 0.5):
        return a.T
    if len(coords) == 1 and rng.random() < 0.5:
        return a[0]
    return a if rng.random() < 0.7 else a.tolist()


def compare(c, res, what, want, key, tol):
    """results of one analysis against per-direction truth"""
    import numpy as np
    name = {'psf': 'psf_list', 'sr': 'sr_list', 'ma': 'modal_coeffs', 'ef': 'phase_cubes'}
    for n in what:
        got = res[name[n]]
        if not c.check(len(got) == len(want), f'{key}:{n}: number of directions', f'{len(got)} vs {len(want)}'):
            continue
        for k, w in enumerate(want):
            g = np.asarray(got[k], dtype=float)
            w = np.asarray(w[n], dtype=float)
            c.saw(f'{n} compared')
            if not c.check(g.shape == w.shape, f'{key}:{n}: shape', f'{g.shape} vs {w.shape}'):
                continue
            s = max(float(np.abs(w).max()), 1e-12)
            c.near(g, w, f'{key}:{n}', rtol=tol, atol=tol, scale=s)


@CHECK.section('online', quick=40, thorough=500, chunk=2, timeout=600)
def online(c):
    """psf, Strehl, modes and fields of the recorded directions, in any order and number, against the on-line branches"""
    import numpy as np
    import specula
    from harness import sp
    from specula.field_analyser import FieldAnalyser
    rng = c.rng
    n = int(rng.integers(1, 4))
    coords = rand_coords(rng, n)
    wl = float(sp.pick(rng, [750, 1650, 1200.5, 589.6]))
    start = float(sp.pick(rng, [0.0, 0.0, 0.001, 0.002]))
    tn, truth, dms, d = record(c, rng, coords, wl, start)
    m = int(rng.integers(1, n + 1))
    sel = [int(i) for i in rng.permutation(n)[:m]]
    other = bool(rng.random() < 0.15)
    kinds = [k for k in ('psf', 'modal', 'cube') if rng.random() < 0.7] or ['psf']
    rng.shuffle(kinds)
    c.describe(coords=coords, wl=wl, sel=sel, kinds=list(kinds), otherprec=other, prec=c.precision, **d)
    pol = layout(rng, [coords[i] for i in sel])
    if other:
        # the analysis is started by a process in the other precision
        specula.init(device_idx=-1, precision=1 - c.precision)
    try:
        with sp.quiet():
            fa = FieldAnalyser('data', tn, pol, wavelength_nm=wl, start_time=start, verbose=bool(rng.random() < 0.2))
            want = [truth[i] for i in sel]
            tol = 1e-5 if c.precision == 0 else 2e-3
            for k in kinds:
                if k == 'psf':
                    res = fa.compute_field_psf(psf_sampling=d['nd'])
                    compare(c, res, ('psf', 'sr'), want, 'online', tol)
                elif k == 'modal':
                    res = fa.compute_modal_analysis(dict(d['ma']))
                    compare(c, res, ('ma',), want, 'online', tol)
                    for i, w in enumerate(want):
                        c.near(res['residual_average'][i], w['ma'].mean(axis=0), 'online:modal average', rtol=tol, atol=tol, scale=max(1e-9, np.abs(w['ma']).max()))
                        c.near(res['residual_variance'][i], w['ma'].astype(float).var(axis=0), 'online:modal variance', rtol=tol, atol=tol, scale=max(1e-9, np.abs(w['ma']).max() ** 2))
                else:
                    res = fa.compute_phase_cube()
                    compare(c, res, ('ef',), want, 'online', tol)
                    if res['times'] is not None:
                        c.eq([int(t) for t in res['times']], [int(round(i * 1e6)) for i in range(d['nsteps'])], 'online:times of the cube')
            if rng.random() < 0.25:
                # parameters taken from the ground DM of the run
                auto = fa.compute_modal_analysis()
                c.saw('default modal parameters')
                exp = [fa.compute_modal_analysis({'type_str': p['type_str'], 'nmodes': p['nmodes'], 'obsratio': p['obsratio'], 'npixels': 32}, force_recompute=True) for p in dms]
                c.check(any(all(np.array_equal(a, b) for a, b in zip(auto['modal_coeffs'], e['modal_coeffs'])) for e in exp), 'online:default modal parameters are not those of a ground DM', str(dms))
            c.near(res['distances'], [coords[i][0] for i in sel], 'online:distances', rtol=1e-12)
    finally:
        if other:
            specula.init(device_idx=-1, precision=c.precision)


@CHECK.section('repeat', quick=40, thorough=400, chunk=2, timeout=600)
def repeat(c):
    """a sequence of requests on one recorded run: results do not depend on what was computed (and cached) before"""
    import os
    import shutil
    from harness import sp
    from specula.field_analyser import FieldAnalyser
    rng = c.rng
    n = int(rng.integers(1, 4))
    coords = rand_coords(rng, n)
    wl = float(sp.pick(rng, [750, 1650, 589.6]))
    tn, truth, _, d = record(c, rng, coords, wl, 0.0)
    nreq = int(rng.integers(2, 5))
    reqs = []
    base = {'psf': dict(wl=wl, start=0.0, nd=d['nd']), 'modal': dict(d['ma']), 'cube': dict(wl=wl)}
    kind = sp.pick(rng, ['psf', 'psf', 'modal', 'modal', 'cube'])
    for k in range(nreq):
        q = dict(base[kind])
        what = sp.pick(rng, ['same', 'one', 'one'])
        if k and what == 'one':
            if kind == 'psf':
                x = sp.pick(rng, ['wl', 'start', 'nd', 'mas'])
                if x == 'wl':
                    q['wl'] = wl + float(sp.pick(rng, [0.3, 50, -0.2]))
                if x == 'start':
                    q['start'] = float(sp.pick(rng, [0.001, 0.002]))
                if x == 'nd':
                    q['nd'] = float(sp.pick(rng, [1.0, 2.0, 3.0]))
                if x == 'mas':
                    q['mas'] = float(wl * 1e-9 / 3.2 * 180 / 3.14159265 * 3600e3 / rng.uniform(1, 4))
            elif kind == 'modal':
                x = sp.pick(rng, ['nmodes', 'obsratio', 'diaratio', 'dorms', 'wavelengthInNm'])
                if x == 'nmodes':
                    q['nmodes'] = int(q['nmodes']) + 1
                elif x == 'dorms':
                    q['dorms'] = not q.get('dorms', False)
                elif x == 'wavelengthInNm':
                    q[x] = float(sp.pick(rng, [500.0, 1000.0]))
                elif x == 'diaratio':
                    q[x] = float(sp.pick(rng, [0.9, 0.8]))
                else:
                    q[x] = q['obsratio'] + float(sp.pick(rng, [0.004, 0.1]))
        sel = sorted(rng.permutation(n)[:int(rng.integers(1, n + 1))].tolist())
        if rng.random() < 0.3:
            sel = sel[::-1]
        reqs.append((q, sel, bool(k and rng.random() < 0.15)))
    c.describe(coords=coords, wl=wl, kind=kind, reqs=[(sorted(q.items()), s, f) for q, s, f in reqs], prec=c.precision, **d)

    def run(root, q, sel, force):
        with sp.quiet():
            fa = FieldAnalyser(root, tn, layout(rng, [coords[i] for i in sel]), wavelength_nm=q.get('wl', wl) if kind != 'modal' else wl, start_time=q.get('start', 0.0))
            if kind == 'psf':
                kw = {'psf_pixel_size_mas': q['mas']} if 'mas' in q else {'psf_sampling': q['nd']}
                return fa.compute_field_psf(force_recompute=force, **kw)
            if kind == 'modal':
                return fa.compute_modal_analysis(dict(q), force_recompute=force)
            return fa.compute_phase_cube(force_recompute=force)

    names = {'psf': ('psf', 'sr'), 'modal': ('ma',), 'cube': ('ef',)}[kind]
    keyname = {'psf': 'psf_list', 'sr': 'sr_list', 'ma': 'modal_coeffs', 'ef': 'phase_cubes'}
    for k, (q, sel, force) in enumerate(reqs):
        got = run('data', q, sel, force)
        # the same request where nothing has been computed before
        os.makedirs('fresh')
        shutil.copytree(f'data/{tn}', f'fresh/{tn}')
        want = run('fresh', q, sel, False)
        shutil.rmtree('fresh')
        c.saw('request repeated')
        compare(c, got, names, [{m: want[keyname[m]][i] for m in names} for i in range(len(sel))], f'repeat:{kind}', 1e-9)
        for m in ('pixel_size_mas', 'psf_sampling', 'wavelength_nm'):
            if m in want:
                c.near(got[m], want[m], f'repeat:{kind}:{m}', rtol=1e-12)
        # and the truth of the original run, when the request is the one that was observed on line
        if q == base[kind]:
            compare(c, got, names, [truth[i] for i in sel], f'repeat:{kind}:online', 1e-5 if c.precision == 0 else 2e-3)
