"""C04: bit-identical reproducibility of complete simulations, seeds, and caches."""
from harness.vf import CheckDef
CHECK = CheckDef('C04', rule=(
    'Random complete AO simulations rerun (a) in the same process after an unrelated simulation and with a disturbed global random state, caches warm, '
    '(b) in a fresh process with another hash seed, another working directory and cold caches. Every output of every object at every step is compared by digest. '
    'seeds: every stochastic object, same seed -> same sequence, other seed -> other sequence, interleaving-independent. cache: sequences of nearly equal requests '
    'for phase screens and convolution kernels in one cache directory compared with computation from scratch.'),
    assumptions=['RandomGenerator with seed=None is documented to be random and is excluded'])


def _cmp(c, key, a, b, what):
    n = 0
    if not c.check(sorted(a) == sorted(b), key + ':objects', f'{what}: sets of running objects differ'):
        return
    for nm in a:
        if not c.check(len(a[nm]) == len(b[nm]), key + ':runs', f'{what}: {nm} ran {len(a[nm])} vs {len(b[nm])} times'):
            return
        for (t, x), (t2, y) in zip(a[nm], b[nm]):
            n += len(x)
            if not c.check(t == t2 and x == y, key + ':values', f'{what}: {nm} at t={t}, outputs {[k for k in x if x[k] != y.get(k)]} differ'):
                return
    c.saw('outputs_compared', n)


def _norm(log):
    import json
    return json.loads(json.dumps({nm: [[int(t), {k: [[d, int(g)] for d, g in v] for k, v in outs.items()}] for t, outs in L] for nm, L in log.items()}))


def _system(c):
    from harness import zoo
    rng = c.rng
    params, info = zoo.system(rng, nsteps=int(rng.integers(3, 7)), prec=c.precision)
    ex = zoo.observers(rng, params, info, npick=int(rng.integers(2, 9)))
    params.update(ex)
    params['rnd_'] = {'class': 'RandomGenerator', 'amp': 2.0, 'seed': int(rng.integers(1, 1000)), 'distribution': str(rng.choice(['NORMAL', 'UNIFORM'])), 'output_size': 3, 'outputs': ['output']}
    for o in params.values():      # exercise the rarer noise and imperfection terms as well
        if o.get('class') == 'CCD' and rng.random() < 0.6:
            o.update(cic_noise=True, cic_level=float(rng.uniform(0.05, 0.5)))
        if o.get('class') in ('ModulatedPyramid', 'ModulatedDoubleRoof') and rng.random() < 0.6:
            o.update(pyr_edge_def_ld=float(rng.uniform(0.5, 2)), pyr_tip_def_ld=float(rng.uniform(0.5, 2)))
    c.describe(atmo=info['atmo'], wfs=info['wfs'], ctl=info['ctl'], ndm=info['ndm'], nsrc=info['nsrc'], observers=list(ex))
    return params, info


@CHECK.section('rerun', quick=16, thorough=250, precisions=(0, 1), chunk=4)
def rerun(c):
    import copy
    import numpy as np
    from harness import zoo, monitor
    params, info = _system(c)
    np.random.seed(int(c.rng.integers(1 << 30)))
    s1, m1 = monitor.run_monitored(copy.deepcopy(params), 'a.yml', isolation=False)
    other, oi = zoo.system(np.random.default_rng(int(c.rng.integers(1 << 30))), nsteps=2, root='other')
    monitor.run_monitored(other, 'o.yml', isolation=False)
    np.random.seed(int(c.rng.integers(1 << 30)))
    s2, m2 = monitor.run_monitored(copy.deepcopy(params), 'a.yml', isolation=False)
    _cmp(c, 'rerun', _norm(m1.log), _norm(m2.log), 'second run in the same process')
    c.saw('systems')


@CHECK.section('process', quick=8, thorough=100, precisions=(0, 1), chunk=2)
def process(c):
    import copy, json, os, shutil, subprocess, sys
    from harness import monitor, sp
    params, info = _system(c)
    os.makedirs('B')
    if os.path.isdir('calib'):
        shutil.copytree('calib', 'B/calib')
    s1, m1 = monitor.run_monitored(copy.deepcopy(params), 'a.yml', isolation=False)
    shutil.copy('a.yml', 'B/a.yml')
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([os.path.dirname(os.path.dirname(os.path.abspath(__file__)))] + [os.environ.get('PYTHONPATH', '')]).rstrip(os.pathsep), PYTHONHASHSEED=str(int(c.rng.integers(1, 10 ** 6))))
    for mode in ('cold', 'warm'):
        r = subprocess.run([sys.executable, '-m', 'harness.c04_child', 'a.yml', str(c.precision), 'out.json', str(int(c.rng.integers(1 << 30)))], cwd='B', env=env, capture_output=True, text=True, timeout=300)
        if not c.check(r.returncode == 0, 'process:exit', f'{mode} process ended with {r.returncode}: {r.stderr[-400:]}'):
            return
        _cmp(c, 'process-' + mode, _norm(m1.log), json.load(open('B/out.json')), f'{mode} caches, other process')
    c.saw('processes', 2)


@CHECK.section('seeds', quick=40, thorough=400, precisions=(0, 1))
def seeds(c):
    """two instances with the same seed driven in an interleaved way agree; another seed differs; global random state is irrelevant"""
    import numpy as np
    from harness import sp
    from harness.zoo import digest
    from specula.data_objects.intensity import Intensity
    rng = c.rng
    kinds = ['ccd_photon', 'ccd_ron', 'ccd_excess', 'ccd_all', 'rnd_normal', 'rnd_uniform', 'atmo', 'atmo_random', 'infinite', 'vibration']
    kind = kinds[c.i % len(kinds)]
    s0 = int(rng.integers(1, 5000))
    s1 = s0 + int(rng.integers(20, 40))
    prm = sp.simul_params(pixel_pupil=16, pixel_pitch=0.1, time_step=0.001, total_time=1.0, root_dir='.')
    inp = [np.abs(rng.standard_normal((8, 8))) * 1000 for _ in range(8)]
    lev = float(rng.uniform(1, 5))
    see, ws, wd = float(rng.uniform(0.4, 1)), float(rng.uniform(5, 30)), float(rng.uniform(0, 360))
    rdm = int(rng.integers(1000))

    def make(seed):
        import warnings
        if kind.startswith('ccd'):
            from specula.processing_objects.ccd import CCD
            k = kind[4:]
            kw = dict(photon_noise=k in ('photon', 'excess', 'all'), readout_noise=k in ('ron', 'all'), excess_noise=k in ('excess', 'all'))
            sd = {'photon': dict(photon_seed=seed), 'ron': dict(readout_seed=seed), 'excess': dict(excess_seed=seed), 'all': dict(photon_seed=seed, readout_seed=seed + 1, excess_seed=seed + 2)}[k]
            if k == 'excess':
                kw['excess_delta'] = 0.9
            o = CCD(prm, size=[8, 8], dt=0.001, bandw=300.0, readout_level=lev, target_device_idx=-1, **kw, **sd)
            i = Intensity(8, 8, target_device_idx=-1)
            o.inputs['in_i'].set(i)
            feed = lambda n, t: (i.i.__setitem__(slice(None), inp[n]), setattr(i, 'generation_time', t))
        elif kind.startswith('rnd'):
            from specula.processing_objects.random_generator import RandomGenerator
            o = RandomGenerator(amp=lev, seed=seed, distribution=kind[4:].upper(), output_size=5, target_device_idx=-1)
            feed = lambda n, t: None
        elif kind == 'vibration':
            from specula.processing_objects.vibration_generator import VibrationGenerator
            f = np.linspace(1, 500, 200)
            o = VibrationGenerator(prm, nmodes=2, psd=np.ones((2, 200)), freq=f, seed=seed, target_device_idx=-1)
            feed = lambda n, t: None
        else:
            from specula.data_objects.source import Source
            V = [sp.val(np.array([see]), 0), sp.val(np.array([ws]), 0), sp.val(np.array([wd]), 0)]
            kw = dict(simul_params=prm, L0=20.0, seed=seed, target_device_idx=-1)
            if kind == 'atmo':
                from specula.processing_objects.atmo_evolution import AtmoEvolution
                o = AtmoEvolution(heights=[0.0], Cn2=[1.0], data_dir='ps', pixel_phasescreens=256, **kw)
            elif kind == 'infinite':
                from specula.processing_objects.atmo_infinite_evolution import AtmoInfiniteEvolution
                o = AtmoInfiniteEvolution(heights=[0.0], Cn2=[1.0], **kw)
            else:
                from specula.processing_objects.atmo_random_phase import AtmoRandomPhase
                from specula.data_objects.pupilstop import Pupilstop
                o = AtmoRandomPhase(data_dir='ps', pixel_phasescreens=64, source_dict={'s': Source([0, 0], 8, 750, target_device_idx=-1)}, **kw)
                ps = Pupilstop(prm, target_device_idx=-1)
                o.inputs['pupilstop'].set(ps)
            for k, v in zip(('seeing', 'wind_speed', 'wind_direction'), V):
                if k in o.inputs:
                    o.inputs[k].set(v)
            feed = lambda n, t: [setattr(v, 'generation_time', t) for v in V]
        o.setup()
        return o, feed

    def outs(o):
        r = []
        for k, v in o.outputs.items():
            for x in (v if isinstance(v, list) else [v]):
                r.append(digest(x))
        return tuple(r)
    n = int(rng.integers(2, 7))
    c.describe(kind=kind, seed=s0, other=s1, steps=n)
    with sp.quiet():
        np.random.seed(rdm)
        A = make(s0)
        np.random.seed(rdm + 1)
        B = make(s0)
        D = make(s1)
        seqs = {}
        for k in range(n):
            for nm, (o, feed) in (('A', A), ('B', B), ('D', D)):
                feed(k, k * 1_000_000)
                sp.step(o, k * 1_000_000)
                seqs.setdefault(nm, []).append(outs(o))
                if rng.random() < 0.3:
                    np.random.random(int(rng.integers(1, 9)))
        np.random.seed(rdm + 2)
        E = make(s0)
        for k in range(n):
            E[1](k, k * 1_000_000)
            sp.step(E[0], k * 1_000_000)
            seqs.setdefault('E', []).append(outs(E[0]))
    c.check(seqs['A'] == seqs['B'], 'seeds:same-seed-differs', f'{kind}: two instances with the same seed, stepped in turn, published different data')
    c.check(seqs['A'] == seqs['E'], 'seeds:same-seed-differs-later', f'{kind}: an instance created later with the same seed published different data')
    c.check(seqs['A'] != seqs['D'], 'seeds:other-seed-same', f'{kind}: seeds {s0} and {s1} gave identical data')
    if kind.startswith(('ccd', 'rnd', 'atmo_random')):
        c.check(len(set(seqs['A'])) == n, 'seeds:repeats', f'{kind}: the noise repeats within {n} steps')
    c.saw('sequences', 4)


@CHECK.section('screens', quick=12, thorough=120, precisions=(0, 1))
def screens(c):
    """near-identical phase screen requests sharing one cache directory"""
    import os
    import numpy as np
    from harness import sp
    from specula.lib.phasescreen_manager import phasescreens_manager
    rng = c.rng
    P = lambda s: s[int(rng.integers(len(s)))]
    base = [float(P([10.0, 25.0, 25.3, 22.0])), int(P([32, 64])), float(P([0.05, 0.1, 0.016])), int(P([1, 7, 12]))]
    reqs = []
    for _ in range(int(rng.integers(4, 8))):
        L0, dim, pit, seed = base
        k = int(rng.integers(0, 5))
        if k == 0:
            L0 = L0 + float(P([1e-5, 0.3, 0.49, -0.3, 1.0, 1e-3]))
        elif k == 1:
            dim = int(P([32, 64]))
        elif k == 2:
            pit = pit + float(P([1e-4, 4e-4, -3e-4, 1e-3]))
        elif k == 3:
            seed = int(P([1, 2, 7, 12, 71]))
        reqs.append((L0, dim, pit, seed, int(P([0, 1]))))
    c.describe(requests=reqs)
    multi = bool(rng.random() < 0.5)
    with sp.quiet():
        for j, (L0, dim, pit, seed, prec) in enumerate(reqs + reqs[::-1]):
            got = phasescreens_manager(np.array([L0]), dim, pit, 'shared', np, prec, seed=np.array([seed]))[0]
            ref = phasescreens_manager(np.array([L0]), dim, pit, f'alone{j}', np, prec, seed=np.array([seed]))[0]
            c.check(got.shape == ref.shape and np.array_equal(got, ref), 'screens:wrong-file-reused', f'request {j} {(L0, dim, pit, seed, prec)} got the screen of another request')
            if multi:
                L = np.array([L0, L0 + 1.0, L0])
                got = phasescreens_manager(L, dim, pit, 'shared', np, prec, seed=np.array([seed, seed, seed + 1]))
                c.check(np.array_equal(got[0], ref) and not np.array_equal(got[1], ref) and not np.array_equal(got[2], ref), 'screens:list', 'list request mixes up screens')
            c.saw('requests')


@CHECK.section('kernels', quick=12, thorough=120, precisions=(0, 1))
def kernels(c):
    """LGS convolution kernels: a cache directory shared by different requests gives the same kernels as an empty one"""
    import numpy as np
    from harness import sp
    from specula.data_objects.convolution_kernel import ConvolutionKernel
    from specula.data_objects.gaussian_convolution_kernel import GaussianConvolutionKernel
    rng = c.rng
    P = lambda s: s[int(rng.integers(len(s)))]
    base = dict(dimx=4, dimy=4, pxscale=0.2, pupil_size_m=8.0, dimension=8, launcher_pos=[5.0, 5.0, 0.0], seeing=0.8, launcher_size=0.5, zfocus=90e3,
                theta=[0.0, 0.0], airmass=1.0, oversampling=1, return_fft=True, positive_shift_tt=True)
    reqs = []
    for _ in range(int(rng.integers(3, 7))):
        kw = dict(base)
        k = P([k for k in base if k not in ('dimx', 'dimy')] + [None])
        alt = dict(pxscale=0.2001, pupil_size_m=8.2, dimension=12, launcher_pos=[5.0, -5.0, 0.0], seeing=0.81, launcher_size=0.6, zfocus=91e3, theta=[0.3, 0.0], airmass=1.2, oversampling=2,
                   return_fft=False, positive_shift_tt=False)
        if k:
            kw[k] = alt[k]
        prof = P([0, 1, 2])
        reqs.append((bool(rng.random() < 0.3), kw, prof))
    c.describe(requests=[(g, {k: v for k, v in kw.items() if v != base[k]}, p) for g, kw, p in reqs])
    Z = [np.array([89e3, 90e3, 91e3]), np.array([89e3, 90e3, 91e3]), np.array([85e3, 90e3, 95e3])]
    W = [np.array([0.2, 0.6, 0.2]), np.array([0.3, 0.4, 0.3]), np.array([0.2, 0.6, 0.2])]

    def get(gauss, kw, prof, d):
        kw = dict(kw)
        if gauss:
            kw = {k: kw[k] for k in ('dimx', 'dimy', 'pxscale', 'dimension', 'pupil_size_m', 'oversampling', 'return_fft', 'positive_shift_tt', 'airmass')}
            o = GaussianConvolutionKernel(spot_size=0.7, data_dir=d, target_device_idx=-1, **kw)
            o.prepare_for_sh(current_time=0)
        else:
            o = ConvolutionKernel(data_dir=d, target_device_idx=-1, **kw)
            o.prepare_for_sh(sodium_altitude=Z[prof], sodium_intensity=W[prof], current_time=0)
        return np.array(o.kernels)
    with sp.quiet():
        for j, (g, kw, p) in enumerate(reqs + reqs):
            a = get(g, kw, p, 'shared')
            b = get(g, kw, p, f'alone{j}')
            c.check(a.dtype == b.dtype and np.array_equal(a, b), 'kernels:cache-differs', f'request {j}: kernels obtained through the shared cache differ from those computed alone '
                    f'(max {np.abs(a - b).max() if a.shape == b.shape else "shape"})')
            c.saw('requests')
        # one object, successive sodium profiles, equals fresh objects
        o = ConvolutionKernel(data_dir='seq', target_device_idx=-1, **base)
        for p in (0, 1, 0, 2, 1, 0):
            o.prepare_for_sh(sodium_altitude=Z[p], sodium_intensity=W[p], current_time=0)
            c.check(np.array_equal(o.kernels, get(False, base, p, 'seq2')), 'kernels:sequence', f'profile {p} of a changing sequence gives other kernels than alone')
            c.saw('profiles')
