"""C03: isolation of processing objects and invisibility of observers, monitored on complete simulations."""
from harness.vf import CheckDef
CHECK = CheckDef('C03', rule=(
    'Random complete AO simulations (atmospheres, 1-3 sources, Shack-Hartmann/pyramid/ideal sensors, CCD, slopes, reconstructor, filters, 1-2 mirrors, '
    'observer branches of every kind). A monitor digests the public state of every output and every data object before and after each setup, '
    'check_ready, trigger, post_trigger and finalize call and attributes each change to the object that was running. invisible: the same system with and '
    'without observers must publish identical outputs step by step. units: single objects driven directly with guarded inputs.'),
    assumptions=['private (underscore) attributes such as caches may change at any time'])


@CHECK.section('isolation', quick=26, thorough=400, precisions=(0, 1), chunk=4)
def isolation(c):
    import copy
    from harness import zoo, monitor
    rng = c.rng
    params, info = zoo.system(rng, nsteps=int(rng.integers(3, 6)))
    ex = zoo.observers(rng, params, info, npick=int(rng.integers(4, 12)))
    params.update(ex)
    c.describe(atmo=info['atmo'], wfs=info['wfs'], ctl=info['ctl'], ndm=info['ndm'], nsrc=info['nsrc'], observers=list(ex))
    s, mon = monitor.run_monitored(copy.deepcopy(params))
    c.saw('phase_calls', mon.calls)
    c.saw('watched_objects', len(mon.tg))
    for nm, meth, where, t, xt, ot in mon.changes[:20]:
        c.check(False, f'isolation:{ot}.{meth}-changed-{where[0] if where[1] is None else xt}',
                f'{nm} ({ot}).{meth} at t={t} changed {where} ({xt})')
    c.check(not mon.changes, 'isolation:ok')


@CHECK.section('invisible', quick=24, thorough=400, precisions=(0, 1), chunk=4)
def invisible(c):
    import copy
    from harness import zoo, monitor
    rng = c.rng
    params, info = zoo.system(rng, nsteps=int(rng.integers(3, 8)))
    ex = zoo.observers(rng, params, info, npick=int(rng.integers(3, 14)))
    c.describe(atmo=info['atmo'], wfs=info['wfs'], ctl=info['ctl'], ndm=info['ndm'], nsrc=info['nsrc'], observers=list(ex))
    s1, m1 = monitor.run_monitored(copy.deepcopy(params), 'base.yml', isolation=False)
    allp = list(params.items())
    for k, v in ex.items():       # observers inserted at random positions of the file
        allp.insert(int(rng.integers(1, len(allp) + 1)), (k, v))
    s2, m2 = monitor.run_monitored(copy.deepcopy(dict(allp)), 'obs.yml', isolation=False)
    n = 0
    for nm, log in m1.log.items():
        log2 = m2.log.get(nm)
        if not c.check(log2 is not None and len(log2) == len(log), 'invisible:runs', f'{nm} ran {len(log)} times alone, {None if log2 is None else len(log2)} with observers'):
            return
        for (t, a), (t2, b) in zip(log, log2):
            n += len(a)
            if not c.check(t == t2 and a == b, 'invisible:output-changed', f'{nm} at t={t}: outputs {[k for k in a if a[k] != b.get(k)]} differ when observers {list(ex)} are present'):
                return
    c.saw('outputs_compared', n)
    c.saw('observers', len(ex))


@CHECK.section('units', quick=40, thorough=500, precisions=(0, 1))
def units(c):
    """command-path objects driven step by step: inputs guarded, published values stable between runs"""
    import numpy as np
    from harness import sp
    from harness.monitor import public_digest
    rng = c.rng
    n = int(rng.integers(2, 7))
    kinds = ['op_mul', 'op_div', 'op_sum', 'op_sub', 'op_concat', 'op_const', 'op_short', 'slicer_idx', 'slicer_slice', 'inserter', 'mvm', 'linear', 'linear_ps', 'integrator', 'lpf',
             'window', 'modalrec', 'polc', 'implicit', 'multirec', 'split', 'complementary', 'dynint', 'schedule', 'gainopt']
    kind = kinds[c.i % len(kinds)]
    dt = np.float32 if c.precision else float
    R = lambda *s: rng.standard_normal(s).astype(dt)
    V = lambda *s: sp.val(R(*s), 0)
    prm = sp.simul_params(time_step=0.001, total_time=1.0)
    ins = []

    def conn(o, name, v):
        o.inputs[name].set(v)
        ins.extend(v if isinstance(v, list) else [v])
    if kind.startswith('op_'):
        from specula.processing_objects.base_operation import BaseOperation
        k = kind[3:]
        kw = {'const': dict(constant_mul=2.0, constant_sum=1.0), 'short': dict(sum=True, value2_is_shorter=True)}.get(k, {k: True})
        o = BaseOperation(target_device_idx=-1, **kw)
        conn(o, 'in_value1', V(n))
        if k != 'const':
            conn(o, 'in_value2', V(n - 1 if k == 'short' else n))
    elif kind.startswith('slicer'):
        from specula.processing_objects.base_slicer import BaseSlicer
        o = BaseSlicer(target_device_idx=-1, **({'indices': [n - 1, 0]} if kind.endswith('idx') else {'slice_args': [0, n - 1]}))
        conn(o, 'in_value', V(n))
    elif kind == 'inserter':
        from specula.processing_objects.base_inserter import BaseInserter
        o = BaseInserter(output_size=[n + 2], slice_args=[[0, n], [1, n + 1]], target_device_idx=-1)
        conn(o, 'in_value', V(n))
    elif kind == 'mvm':
        from specula.processing_objects.mvm import MVM
        from specula.data_objects.recmat import Recmat
        rm = Recmat(R(3, n), target_device_idx=-1)
        ins.append(rm)
        o = MVM(recmat=rm, target_device_idx=-1)
        conn(o, 'in_vector', V(n))
    elif kind.startswith('linear'):
        from specula.processing_objects.linear_combination import LinearCombination
        o = LinearCombination(prm, no_focus=False, no_lift=bool(rng.random() < 0.5), plate_scale_idx=5 if kind == 'linear_ps' else None, target_device_idx=-1)
        L = [V(9), V(1)] + ([] if o.no_lift else [V(2)]) + [V(5)]
        conn(o, 'in_vectors_list', L)
    elif kind == 'integrator' or kind == 'dynint':
        from specula.processing_objects.integrator import Integrator
        o = Integrator(prm, int_gain=[0.4], n_modes=[n], ff=[0.9], delay=float(sp.pick(rng, [0, 1, 2, 1.5])), target_device_idx=-1)
        conn(o, 'delta_comm', V(n))
        if kind == 'dynint':
            conn(o, 'gain_mod', sp.val(np.ones(n), 0))
    elif kind == 'lpf':
        from specula.processing_objects.low_pass_filter import LowPassFilter
        o = LowPassFilter(prm, cutoff_freq=[50.0] * n, n_ord=1, target_device_idx=-1)
        conn(o, 'delta_comm', V(n))
    elif kind == 'window':
        from specula.processing_objects.windowed_integration import WindowedIntegration
        o = WindowedIntegration(prm, n_elem=n, dt=0.003, target_device_idx=-1)
        conn(o, 'input', V(n))
    elif kind in ('modalrec', 'polc', 'implicit'):
        from specula.processing_objects.modalrec import Modalrec
        from specula.processing_objects.modalrec_implicit_polc import ModalrecImplicitPolc
        from specula.data_objects.recmat import Recmat
        from specula.data_objects.intmat import Intmat
        from specula.data_objects.slopes import Slopes
        ns = 2 * n
        rm, im = Recmat(R(n, ns), target_device_idx=-1), Intmat(R(ns, n), target_device_idx=-1)
        pm = Recmat(R(n, n), target_device_idx=-1)
        ins += [rm, im, pm]
        if kind == 'modalrec':
            o = Modalrec(nmodes=n, recmat=rm, target_device_idx=-1)
        elif kind == 'polc':
            o = Modalrec(nmodes=n, recmat=rm, intmat=im, projmat=pm, polc=True, target_device_idx=-1)
        else:
            o = ModalrecImplicitPolc(nmodes=n, recmat=rm, intmat=im, projmat=pm, target_device_idx=-1)
        sl = Slopes(slopes=R(ns), target_device_idx=-1)
        conn(o, 'in_slopes', sl)
        if kind != 'modalrec':
            conn(o, 'in_commands', V(n))
    else:
        c.skip()
    c.describe(kind=kind, n=n)
    for v in ins:
        v.generation_time = 0
    o.setup()
    outs = [(k, x) for k, v in o.outputs.items() for x in (v if isinstance(v, list) else [v])]
    for k in range(8):
        t = k * 1_000_000
        dyn = [v for v in ins if hasattr(v, 'description') or type(v).__name__ == 'Slopes']
        fresh = bool(rng.random() < 0.7)
        pub = {i: public_digest(x) for i, (nm, x) in enumerate(outs)}
        # the inputs change (in place or by rebinding) before the object is run: what it published must not move
        for v in dyn:
            arr = v.value if hasattr(v, 'description') else v.slopes
            if rng.random() < 0.6:
                arr[...] = R(*arr.shape)
            elif hasattr(v, 'description'):
                v.value = R(*arr.shape)
            if fresh:
                v.generation_time = t
        for i, (nm, x) in enumerate(outs):
            c.check(public_digest(x) == pub[i], 'units:output-aliases-input', f'{kind}: published {nm} changed when an input was modified')
        before = [public_digest(v) for v in ins]
        ran = sp.step(o, t)
        for v, b in zip(ins, before):
            c.check(public_digest(v) == b, 'units:input-changed', f'{kind}: an input ({type(v).__name__}) was modified by the object')
        if not ran:
            for i, (nm, x) in enumerate(outs):
                c.check(public_digest(x) == pub[i], 'units:changed-without-run', f'{kind}: output {nm} changed although the object did not run')
        c.saw('steps')


@CHECK.section('magnified', quick=8, thorough=60, precisions=(0, 1))
def magnified(c):
    """propagation through rotated, shifted and magnified layers (with and without opaque pixels)"""
    import numpy as np
    from harness import sp
    from harness.monitor import public_digest
    from specula.processing_objects.atmo_propagation import AtmoPropagation
    from specula.data_objects.layer import Layer
    from specula.data_objects.source import Source
    rng = c.rng
    npup = int(rng.integers(8, 20)) * 2
    prm = sp.simul_params(pixel_pupil=npup, pixel_pitch=0.1)
    L, holes = [], []
    for j in range(int(rng.integers(1, 4))):
        mag = float(sp.pick(rng, [1.0, 1.0, 1.2, 2.0]))
        lay = Layer(npup * 2, npup * 2, 0.1, height=float(sp.pick(rng, [0.0, 500.0])), magnification=mag,
                    shiftXYinPixel=(float(rng.integers(-2, 3)), float(rng.integers(-2, 3))), rotInDeg=float(sp.pick(rng, [0, 0, 10])), target_device_idx=-1)
        lay.phaseInNm[:] = rng.standard_normal((npup * 2, npup * 2)) * 100
        hole = bool(rng.random() < 0.5)
        if hole:
            lay.A[3:9, 3:9] = 0
        lay.generation_time = 0
        L.append(lay)
        holes.append(hole)
    src = {'a': Source(polar_coordinates=[0.0, 0.0], magnitude=8, wavelengthInNm=750, target_device_idx=-1),
           'b': Source(polar_coordinates=[3.0, 50.0], magnitude=8, wavelengthInNm=750, target_device_idx=-1)}
    o = AtmoPropagation(prm, source_dict=src, target_device_idx=-1)
    o.inputs['atmo_layer_list'].set(L[1:])
    o.inputs['common_layer_list'].set(L[:1])
    c.describe(mag=[x.magnification for x in L], holes=holes)
    o.setup()
    for k in range(3):
        for x in L:
            x.phaseInNm[:] = rng.standard_normal(x.phaseInNm.shape) * 100
            x.generation_time = k * 1_000_000
        before = [public_digest(x) for x in L]
        sp.step(o, k * 1_000_000)
        for x, b, h in zip(L, before, holes):
            key = 'magnified:opaque-pixels-of-magnified-layer-filled-in-place' if h and x.magnification > 1 else 'magnified:input-layer-changed'
            c.check(public_digest(x) == b, key, f'AtmoPropagation changed the phase of an input layer (magnification {x.magnification}, opaque pixels: {h})')
        c.saw('layers', len(L))


@CHECK.section('shared_source', quick=8, thorough=120, precisions=(0, 1))
def shared_source(c):
    """A pyramid looking at an extended source leaves the coefficients its source published as they are."""
    import numpy as np
    from harness import sp
    from specula.data_objects.electric_field import ElectricField
    from specula.processing_objects.ext_source_pyramid import ExtSourcePyramid
    rng = c.rng
    N = int(sp.pick(rng, [16, 24, 32]))
    n = int(rng.integers(2, 12))
    stream = bool(rng.integers(2))
    T = int(rng.integers(2, 4))
    c.describe(N=N, n=n, stream=stream, T=T)
    P = sp.simul_params(pixel_pupil=N, pixel_pitch=0.1)
    with sp.quiet():
        o = ExtSourcePyramid(P, 700., 1.0 * 700e-9 / 0.1 * 206265 * 0.8, 8, 24, fov_errinf=0.1, cuda_stream_enable=stream, max_flux_ratio_thr=0.05, target_device_idx=-1)

        def new():
            co = rng.uniform(-2, 2, (n, 4))
            co[:, 3] = rng.uniform(0.1, 1, n) * np.where(rng.random(n) < 0.5, 1, 0.01)
            return np.array(co, dtype=o.dtype)
        v = sp.val(new(), t=0)
        keep = v.value.copy()
        e = ElectricField(N, N, 0.1, S0=1.0, target_device_idx=-1)
        o.inputs['in_ef'].set(e)
        o.inputs['ext_source_coeff'].set(v)
        for t in range(T):
            if t and rng.random() < 0.5:
                v.value = new()
                v.generation_time = t
                keep = v.value.copy()
            e.phaseInNm[:] = rng.normal(size=(N, N)) * 30
            e.generation_time = t
            if t == 0:
                o.setup()
            sp.step(o, t)
            got = np.asarray(v.value)
            same = got.shape == keep.shape and np.array_equal(got, keep)
            if not same and got.shape == (n + 4, 4) and np.array_equal(got[:n], keep) and not got[n:, 3].any():
                c.check(False, 'ext-source:face-points-appended', 'four points of zero flux were appended to the coefficients published by the source')
            else:
                c.check(same, 'ext-source:coefficients-changed', f'the coefficients published by the source were changed: {keep.shape} {got.shape}', t=t, stream=stream)
            c.saw('sources-compared')


# workloads of the other checks, replayed here only to watch what the objects do to the values they receive
ELSEWHERE = {
    'C11': ['iir', 'integrator', 'dynamic', 'lowpass', 'ssr'], 'C13': ['ledger', 'noise', 'window'],
    'C14': ['photometry', 'symmetry', 'shared', 'extended', 'derivative', 'laser', 'interferometer', 'phase_spot', 'filtered'],
    'C15': ['superposition', 'separate', 'masked_magnified', 'mirror', 'combine', 'field'], 'C16': ['sh', 'pyr', 'other', 'meta', 'ciao'],
    'C17': ['rec', 'polc', 'ops', 'slice', 'comb', 'multirate'], 'C18': ['wave', 'table', 'interactive'], 'C19': ['frozen', 'random', 'cube'],
    'C20': ['im', 'multi', 'reference'], 'C22': ['chain', 'extended_source', 'power'], 'C23': ['psf', 'coronagraph', 'modal'],
    'C24': ['signal', 'demodulator', 'optical_gain', 'tracking', 'optimizer'], 'C27': ['lift', 'sprint_sh', 'sprint_pyr']}
PAIRS = [(p, s) for p, v in ELSEWHERE.items() for s in v] + [('C14', 'laser')] * 3


@CHECK.section('received', quick=2 * len(PAIRS), thorough=8 * len(PAIRS), precisions=(0, 1), chunk=len(PAIRS) // 3)
def received(c):
    """every kind of object, driven by the workloads of the other checks: what it receives comes out of each step as it went in"""
    import numpy as np
    from harness import sp, vf
    from harness.monitor import public_digest
    pid, name = PAIRS[c.i % len(PAIRS)]
    k = int(c.i)
    ck = _loaded.get(pid) or _loaded.setdefault(pid, vf.load_check(pid))
    sec = ck.sections[name]
    if c.precision not in sec.precisions:
        c.skip()
    rec = dict(cases=0, evals=0, nontrivial=[], samples=[], violations=[], events={}, error=None)
    sub = vf.Case(rec, sec, k, c.seed, 'quick', c.precision)
    sp.IN_PLACE[0] = bool(k & 1)
    c.describe(workload=f'{pid}/{name}', number=k)
    plain = sp.step

    def values(obj):
        out = []
        for nm, inp in obj.inputs.items():
            for it in inp.input_values:
                try:
                    v = it.get(-1)
                except Exception:
                    continue
                out += [(nm, x) for x in (v if isinstance(v, (list, tuple)) else [v]) if x is not None]
        mine = {id(x) for o in obj.outputs.values() for x in (o if isinstance(o, list) else [o])}
        # two known findings have their own sections above ('magnified', 'shared_source'), which tell them from any other change
        return [(nm, x) for nm, x in out if id(x) not in mine and (type(obj).__name__, nm) != ('ExtSourcePyramid', 'ext_source_coeff')
                and not (getattr(x, 'magnification', 1) not in (None, 1) and np.any(np.asarray(x.A) == 0))]

    def watched(obj, t):
        vs = values(obj)
        before = [public_digest(v) for _, v in vs]
        r = plain(obj, t)
        for (nm, v), b in zip(vs, before):
            if public_digest(v) != b:
                c.check(False, f'received:{type(obj).__name__}.{nm}-changed', f'{type(obj).__name__} modified the {type(v).__name__} it receives as {nm} (t={t})')
                raise vf._Abort()
        c.check(True, 'received')
        c.saw('values_compared', len(vs))
        c.saw(f'steps of {type(obj).__name__}')
        return r
    sp.step = watched
    try:
        sec.fn(sub)
    except Exception:      # the verdict on the workload itself belongs to its own check
        pass
    finally:
        sp.step = plain


_loaded = {}
