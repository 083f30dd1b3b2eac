"""C17: the command path is exactly the configured linear algebra."""
from harness.vf import CheckDef
CHECK = CheckDef('C17', rule=(
    'Each case builds one command-path object (reconstructor, explicit/implicit pseudo-open-loop reconstructor, matrix-vector product, '
    'slicer, inserter, arithmetic operation, linear combination, command combinator, multi-rate reconstructor or filter) with random '
    'sizes, matrices, selections and refresh schedules, drives it several steps through the public step protocol, and compares every '
    'published output with an independent numpy computation; inputs, matrices and shared calibration data must stay bit-identical. '
    'Non-trivial: at least one refreshed output was compared with a non-constant expectation; distinct by configuration.'),
    assumptions=['matrix products are compared up to rounding of the working precision',
                 'reconstructor taken directly from an interaction matrix without inversion is not covered (meaning undocumented)'])

DT = 1_000_000


def tol(c):
    return 1e-11 if c.precision == 0 else 3e-5


def near(c, got, want, key, mag=0, **w):
    import numpy as np
    want = np.asarray(want, float)
    sc = max(1e-3, float(np.abs(want).max(initial=0)), mag)
    c.near(got, want, key, rtol=tol(c), atol=tol(c) * sc, **w)


def mkslopes(n, dtype):
    import numpy as np
    from specula.data_objects.slopes import Slopes
    return Slopes(slopes=np.zeros(n, dtype=dtype), target_device_idx=-1)


@CHECK.section('rec', quick=240, thorough=8000, precisions=(0, 1), chunk=60)
def rec(c):
    import numpy as np
    from harness import sp
    from specula.data_objects.recmat import Recmat
    from specula.processing_objects.modalrec import Modalrec
    from specula.processing_objects.mvm import MVM
    rng = c.rng
    dt = np.float64 if c.precision == 0 else np.float32
    sizes = [int(x) for x in rng.integers(1, 9, size=int(rng.integers(1, 4)))]
    ns = sum(sizes)
    nm = int(rng.integers(2, 10))
    kind = str(sp.pick(rng, ['recmat', 'recmat', 'cut', 'identity', 'filt', 'cutfilt', 'mvm', 'shared', 'intmat']))
    aslist = len(sizes) > 1 and kind != 'mvm'
    R = rng.normal(size=(nm, ns)).astype(dt)
    rm = Recmat(R.copy(), target_device_idx=-1)
    c.describe(kind=kind, sizes=sizes, nm=nm)
    ncut = int(rng.integers(1, nm))
    F = rng.normal(size=(ns, ns)).astype(dt)
    W = R.astype(float)
    objs = []
    with sp.quiet():
        if kind == 'mvm':
            objs.append((MVM(rm, target_device_idx=-1), W))
        elif kind == 'identity':
            objs.append((Modalrec(nmodes=ns, identity=True, target_device_idx=-1), np.eye(ns)))
        elif kind == 'intmat':
            # no reconstruction matrix: the interaction matrix is inverted, after its modes and last slopes are dropped
            from specula.data_objects.intmat import Intmat
            drop = int(rng.integers(1, 4)) if rng.random() < 0.5 else None
            u, _, v = np.linalg.svd(rng.normal(size=(ns + (drop or 0), nm)), full_matrices=False)
            D = (u * rng.uniform(0.5, 2, size=u.shape[1]) @ v).astype(dt)
            im = Intmat(D.copy(), target_device_idx=-1)
            D2 = D.astype(float)[:ns]
            keep = int(rng.integers(1, nm + 1)) if rng.random() < 0.5 else None
            sv = np.linalg.svd(D2[:, :keep], compute_uv=False)
            if sv.min() < 1e-2:
                c.saw('ill-conditioned-skipped')
                return c.skip()
            for kk in [keep] + ([None] if np.linalg.svd(D2, compute_uv=False).min() > 1e-2 else []):
                objs.append((Modalrec(intmat=im, nmodes=kk, nSlopesToBeDiscarded=drop, target_device_idx=-1), np.linalg.pinv(D2[:, :kk])))
            c.check(np.array_equal(im.intmat, D), 'shared-matrix:intmat', 'constructing a reconstructor changed the interaction matrix given to it')
            W = objs[0][1] * 100
        elif kind == 'cut':
            objs.append((Modalrec(recmat=rm, ncutmodes=ncut, target_device_idx=-1), W[:nm - ncut]))
        elif kind == 'filt':
            objs.append((Modalrec(recmat=rm, filtmat=F, target_device_idx=-1), W @ F))
        elif kind == 'cutfilt':
            objs.append((Modalrec(recmat=rm, ncutmodes=ncut, filtmat=F, target_device_idx=-1), (W @ F)[:nm - ncut]))
        elif kind == 'shared':
            objs.append((Modalrec(recmat=rm, ncutmodes=ncut, target_device_idx=-1), W[:nm - ncut]))
            objs.append((Modalrec(recmat=rm, filtmat=F, target_device_idx=-1), W @ F))
            objs.append((Modalrec(recmat=rm, target_device_idx=-1), W))
        else:
            objs.append((Modalrec(recmat=rm, target_device_idx=-1), W))
    c.check(np.array_equal(rm.recmat, R), f'shared-matrix:{kind}', 'constructing a reconstructor changed the matrix given to it')
    ins = []
    if kind == 'mvm':
        ins = [sp.val(np.zeros(ns, dtype=dt))]
    else:
        ins = [mkslopes(n, dt) for n in sizes]
    for o, _ in objs:
        if kind == 'mvm':
            o.inputs['in_vector'].set(ins[0])
        elif aslist:
            o.inputs['in_slopes_list'].set(ins)
        else:
            o.inputs['in_slopes'].set(ins[0])
        o.setup()
    x = [np.zeros(n) for n in (sizes if kind != 'mvm' else [ns])]
    for k in range(int(rng.integers(2, 7))):
        t = k * DT
        fresh = [bool(rng.integers(2)) for _ in ins]
        for i, f in enumerate(fresh):
            if f:
                a = (rng.normal(size=len(x[i])) * 10 ** rng.uniform(-2, 2)).astype(dt)
                x[i] = a.astype(float)
                if kind == 'mvm':
                    ins[i].value = a.copy()
                else:
                    ins[i].slopes = a.copy()
                ins[i].generation_time = t
        for o, M in objs:
            ran = sp.step(o, t)
            c.check(ran == any(fresh), 'when-run', f'ran={ran}, refreshed inputs={fresh}')
            out = o.outputs['out_vector' if kind == 'mvm' else 'out_modes']
            if ran:
                near(c, out.value, M @ np.concatenate(x), f'rec:{kind}', mag=(np.abs(W).max() + 1) * (np.abs(F).max() + 1) * ns * np.abs(np.concatenate(x)).max(), step=k)
                c.check(out.generation_time == t, 'time')
                c.check(out.value.dtype == dt, 'precision', f'{out.value.dtype}')
                c.saw('reconstructions')
        for i, o in enumerate(ins):
            c.check(np.array_equal(o.value if kind == 'mvm' else o.slopes, x[i].astype(dt)), 'input-changed')
        c.check(np.array_equal(rm.recmat, R), f'shared-matrix:{kind}', 'the reconstruction matrix changed during the run')
    if kind == 'mvm' and ns > 1:
        bad = MVM(rm, target_device_idx=-1)
        bad.inputs['in_vector'].set(sp.val(np.zeros(ns - 1, dtype=dt)))
        c.raises(ValueError, bad.setup, 'size-refused')


@CHECK.section('polc', quick=160, thorough=6000, precisions=(0, 1), chunk=40)
def polc(c):
    """explicit and implicit pseudo-open-loop reconstructors in a common feedback history"""
    import numpy as np
    from harness import sp
    from specula.data_objects.recmat import Recmat
    from specula.data_objects.intmat import Intmat
    from specula.processing_objects.modalrec import Modalrec
    from specula.processing_objects.modalrec_implicit_polc import ModalrecImplicitPolc
    rng = c.rng
    dt = np.float64 if c.precision == 0 else np.float32
    sizes = [int(x) for x in rng.integers(1, 7, size=int(rng.integers(1, 4)))]
    ns = sum(sizes)
    proj = bool(rng.random() < 0.75)
    nv = int(rng.integers(1, 9))                      # virtual modes
    csizes = [int(x) for x in rng.integers(1, 5, size=int(rng.integers(1, 4)))]
    if not proj:
        csizes = [nv]
    nc = sum(csizes)
    D = rng.normal(size=(ns, nc)).astype(dt)
    R = rng.normal(size=(nv, ns)).astype(dt) / ns
    P = rng.normal(size=(nc, nv)).astype(dt) if proj else np.eye(nc)
    mk = lambda: dict(recmat=Recmat(R.copy(), target_device_idx=-1), intmat=Intmat(D.copy(), target_device_idx=-1), target_device_idx=-1)
    kw = dict(projmat=Recmat(P.copy(), target_device_idx=-1)) if proj else {}
    objs = {'explicit': Modalrec(polc=True, **mk(), **kw)}
    objs['implicit'] = ModalrecImplicitPolc(projmat=Recmat(P.astype(dt), target_device_idx=-1), **mk())
    s_list = len(sizes) > 1
    c_list = len(csizes) > 1 or rng.random() < 0.3
    none_first = bool(rng.random() < 0.4)
    fb = rng.random() < 0.5
    c.describe(sizes=sizes, csizes=csizes, nv=nv, proj=proj, none_first=none_first, fb=bool(fb), c_list=bool(c_list))
    sl = [mkslopes(n, dt) for n in sizes]
    cm = [sp.val(None if none_first else np.zeros(n, dtype=dt)) for n in csizes]
    for o in objs.values():
        o.inputs['in_slopes_list' if s_list else 'in_slopes'].set(sl if s_list else sl[0])
        o.inputs['in_commands_list' if c_list else 'in_commands'].set(cm if c_list else cm[0])
        o.setup()
    s = np.zeros(ns)
    u = np.zeros(nc)
    prev = None
    Dd, Rd, Pd = D.astype(float), R.astype(float), np.asarray(P, dtype=dt).astype(float)
    for k in range(int(rng.integers(3, 10))):
        t = k * DT
        fs, fc = bool(rng.random() < 0.7), bool(rng.random() < 0.7) and (k > 0 or not none_first)
        if fs:
            s = rng.normal(size=ns).astype(dt).astype(float)
            for o, a in zip(sl, np.split(s, np.cumsum(sizes)[:-1])):
                o.slopes = a.astype(dt)
                o.generation_time = t
        if fc:
            u = (u * 0.9 - 0.3 * prev[:nc] if fb and prev is not None else rng.normal(size=nc)).astype(dt).astype(float)
            for o, a in zip(cm, np.split(u, np.cumsum(csizes)[:-1])):
                o.value = a.astype(dt)
                o.generation_time = t
        sn = {n: (sp.arr(o.outputs['out_modes'].value), o.outputs['out_modes'].generation_time) for n, o in objs.items()}
        for n, o in objs.items():
            sp.step(o, t)
        if fs:
            pol = Rd @ (s + Dd @ u)
            want = Pd @ pol - u
            sc = max(1.0, np.abs(want).max(), np.abs(pol).max(), np.abs(u).max())
            a = tol(c) * sc * 30
            for n, o in objs.items():
                out = o.outputs['out_modes']
                c.near(out.value, want, f'polc:{n}', rtol=0, atol=a, step=k)
                c.check(out.generation_time == t, f'time:{n}')
            e = objs['explicit'].outputs
            c.near(e['out_pseudo_ol_modes'].value, pol, 'pseudo-open-loop', rtol=0, atol=a, step=k)
            c.check(e['out_pseudo_ol_modes'].generation_time == t, 'time:pol')
            c.near(e['out_modes'].value, objs['implicit'].outputs['out_modes'].value, 'explicit-vs-implicit', rtol=0, atol=a)
            prev = want
            c.saw('polc steps')
        else:
            for n, o in objs.items():
                out = o.outputs['out_modes']
                c.check(out.generation_time == sn[n][1] and np.array_equal(out.value, sn[n][0]), f'without-slopes:{n}',
                        'a new command was published although the slopes were not refreshed')
            if fc:
                c.saw('command-only steps')
        c.check(all(np.array_equal(o.slopes, a.astype(dt)) for o, a in zip(sl, np.split(s, np.cumsum(sizes)[:-1]))), 'input-changed')


@CHECK.section('ops', quick=400, thorough=16000, precisions=(0, 1), chunk=100)
def ops(c):
    import numpy as np
    from harness import sp
    from specula.processing_objects.base_operation import BaseOperation
    rng = c.rng
    dt = np.float64 if c.precision == 0 else np.float32
    n = int(rng.integers(1, 9))
    kind = str(sp.pick(rng, ['constant_mul', 'constant_div', 'constant_sum', 'constant_sub', 'constant_max', 'constant_min',
                             'mul', 'div', 'sum', 'sub', 'concat', 'missing']))
    const = kind.startswith('constant')
    kw, m, mode = {}, n, 'full'
    remap = None
    cst = None
    if const:
        cst = float(rng.normal()) + 0.01
        if kind[9:] in ('mul', 'div', 'sum', 'sub') and rng.random() < 0.5:
            cst = [float(x) + 0.01 for x in rng.normal(size=n)]
        kw[kind] = cst
    elif kind == 'missing':
        op = str(sp.pick(rng, ['mul', 'div', 'sum', 'sub', 'concat']))
        o = BaseOperation(**{op: True}, target_device_idx=-1)
        o.inputs['in_value1'].set(sp.val(np.zeros(n, dtype=dt)))
        c.describe(kind=kind, op=op)
        c.raises(ValueError, o.setup, 'missing-second-input')
        return
    else:
        kw[kind] = True
        if kind == 'concat':
            m = int(rng.integers(1, 9))
        else:
            mode = str(sp.pick(rng, ['full', 'full', 'shorter', 'remap']))
            if mode == 'shorter':
                m = int(rng.integers(1, n + 1))
                kw['value2_is_shorter'] = True
            elif mode == 'remap':
                m = int(rng.integers(1, n + 1))
                remap = [int(x) for x in rng.permutation(n)[:m]]
                kw['value2_remap'] = remap
    o = BaseOperation(**kw, target_device_idx=-1)
    v1, v2 = sp.val(np.full(n, np.nan, dtype=dt)), sp.val(np.full(m, np.nan, dtype=dt))
    o.inputs['in_value1'].set(v1)
    if not const:
        o.inputs['in_value2'].set(v2)
    o.setup()
    c.describe(kind=kind, n=n, m=m, mode=mode, remap=remap, cst=cst)
    out = o.outputs['out_value']
    if kind not in ('constant_max', 'constant_min'):
        c.check(np.all(np.isfinite(out.value)) and not np.any(out.value), 'initial-value', f'{out.value}')
        c.check(len(out.value) == (n + m if kind == 'concat' else n), 'initial-size')
    c.check(np.asarray(out.value).dtype == dt or kind in ('constant_max', 'constant_min'), 'initial-precision', f'{np.asarray(out.value).dtype}')
    a = b = None
    for k in range(int(rng.integers(2, 6))):
        t = k * DT
        f1, f2 = (k == 0 or rng.random() < 0.5), (not const and (k == 0 or rng.random() < 0.5))
        if f1:
            a = rng.normal(size=n).astype(dt)
            sp.setval(v1, a.copy(), t)
        if f2:
            b = (rng.normal(size=m) + 3 * (kind == 'div')).astype(dt)
            b[np.abs(b) < 0.05] = 0.5
            sp.setval(v2, b.copy(), t)
        ran = sp.step(o, t)
        c.check(ran == bool(f1 or f2), 'when-run')
        if not ran:
            continue
        A = a.astype(float)
        if const:
            K = np.asarray(cst, float)
            want = {'mul': lambda: A * K, 'div': lambda: A / K, 'sum': lambda: A + K, 'sub': lambda: A - K,
                    'max': lambda: np.maximum(A, K), 'min': lambda: np.minimum(A, K)}[kind[9:]]()
        elif kind == 'concat':
            want = np.concatenate([a, b]).astype(float)
        else:
            B = np.full(n, 1.0 if kind == 'div' else 0.0)
            B[remap if remap is not None else slice(0, m)] = b
            want = {'mul': lambda: A * B, 'div': lambda: A / B, 'sum': lambda: A + B, 'sub': lambda: A - B}[kind]()
        near(c, out.value, want, f'op:{kind}:{mode}', mag=1, step=k)
        c.check(out.generation_time == t and out.value.dtype == dt, 'time-or-precision', f'{out.value.dtype}')
        c.check(np.array_equal(v1.value, a) and (const or np.array_equal(v2.value, b)), 'input-changed')
        c.check(not np.shares_memory(out.value, v1.value), 'aliasing')
        c.saw('operations')


@CHECK.section('slice', quick=400, thorough=16000, precisions=(0, 1), chunk=100)
def slices(c):
    import numpy as np
    from harness import sp
    from specula.processing_objects.base_slicer import BaseSlicer
    from specula.processing_objects.base_inserter import BaseInserter
    rng = c.rng
    dt = np.float64 if c.precision == 0 else np.float32
    n = int(rng.integers(2, 16))

    def rslice(n, k=None):
        """list of slice arguments (selecting exactly k elements when k is given)"""
        for _ in range(200):
            lim = lambda: None if rng.random() < 0.2 else int(rng.integers(-n, n + 1))
            a = [lim(), lim()] + ([None if rng.random() < 0.2 else int(sp.pick(rng, [1, 2, 3, -1, -2]))] if rng.random() < 0.5 else [])
            ln = len(range(n)[slice(*a)])
            if (k is None and ln) or ln == k:
                return a
        return [0, k if k is not None else n]

    def ridx(n, k):
        return [int(x) for x in rng.permutation(n)[:k]]

    x = sp.val(np.zeros(n, dtype=dt))
    state = None
    if rng.random() < 0.55:
        kind = str(sp.pick(rng, ['slice', 'slice', 'indices', 'int', 'whole', 'both']))
        kw = {}
        if kind in ('slice', 'both'):
            kw['slice_args'] = rslice(n)
        if kind in ('indices', 'both'):
            kw['indices'] = [int(v) for v in rng.integers(-n, n, size=int(rng.integers(1, n + 3)))]
        if kind == 'int':
            kw['indices'] = int(rng.integers(-n, n))
        c.describe(kind='slicer:' + kind, n=n, **{k: str(v) for k, v in kw.items()})
        if kind == 'both':
            c.raises(ValueError, lambda: BaseSlicer(**kw, target_device_idx=-1), 'both-refused')
            return
        o = BaseSlicer(**kw, target_device_idx=-1)
        sel = [range(n)[i] for i in kw['indices']] if kind == 'indices' else [range(n)[kw['indices']]] if kind == 'int' else \
            list(range(n)[slice(*kw['slice_args'])]) if kind == 'slice' else list(range(n))
    else:
        kind = str(sp.pick(rng, ['slice', 'indices']))
        N = int(rng.integers(n, n + 10))
        pairs = []
        for _ in range(int(rng.integers(1, 4))):
            if kind == 'slice':
                s = rslice(n)
                d = rslice(N, len(range(n)[slice(*s)]))
                pairs.append([s, d])
            else:
                k = int(rng.integers(1, n + 1))
                pairs.append([ridx(n, k), ridx(N, k)])
        ok = all(p[0] and p[1] for p in pairs)
        arg = pairs[0] if len(pairs) == 1 and rng.random() < 0.6 else pairs
        c.describe(kind='inserter:' + kind, n=n, N=N, arg=str(arg))
        o = BaseInserter(N, **{'slice_args' if kind == 'slice' else 'indices': arg}, target_device_idx=-1)
        state = [None] * N
        for s, d in pairs:
            ss = list(range(n)[slice(*s)]) if kind == 'slice' else s
            dd = list(range(N)[slice(*d)]) if kind == 'slice' else d
            for i, j in zip(ss, dd):
                state[j] = i
    o.inputs['in_value'].set(x)
    o.setup()
    out = o.outputs['out_value']
    old = None
    for k in range(int(rng.integers(2, 5))):
        t = k * DT
        if k and rng.random() < 0.4:
            c.check(not sp.step(o, t), 'when-run')
            c.check(np.array_equal(np.atleast_1d(out.value), want), 'changed-when-idle')
            continue
        a = rng.normal(size=n).astype(dt)
        if rng.random() < 0.5:
            x.value = a.copy()
        else:
            x.value[...] = a
        x.generation_time = t
        c.check(sp.step(o, t), 'when-run')
        if state is None:
            want = a[sel]
        else:
            want = np.array([0 if i is None else a[i] for i in state], dtype=dt)
        c.check(np.array_equal(np.atleast_1d(out.value), want), f'{"insert" if state else "slice"}:{kind}', f'{out.value} != {want}')
        c.check(out.generation_time == t and np.asarray(out.value).dtype == dt, 'time-or-precision')
        c.check(np.array_equal(x.value, a), 'input-changed')
        keep = sp.arr(out.value)
        x.value[...] = 77
        c.check(np.array_equal(out.value, keep), 'aliasing', 'the output changes when the input array is updated in place')
        c.saw('selections')


@CHECK.section('comb', quick=200, thorough=8000, precisions=(0, 1), chunk=50)
def comb(c):
    import numpy as np
    from harness import sp
    from specula.data_objects.recmat import Recmat
    from specula.processing_objects.linear_combination import LinearCombination
    from specula.processing_objects.mirror_commands_combinator import MirrorCommandsCombinator
    rng = c.rng
    dt = np.float64 if c.precision == 0 else np.float32
    if rng.random() < 0.5:
        nf, nl = bool(rng.integers(2)), bool(rng.integers(2))
        psi = None if rng.random() < 0.3 else int(rng.integers(5, 10))
        nlgs = int(rng.integers(9 if psi is None else psi + 3, 20))
        nlift = int(rng.integers(1, 6))
        nngs = 2 if psi is None else 5
        sizes = [nlgs] + ([] if nf else [1]) + ([] if nl else [nlift]) + [nngs]
        o = LinearCombination(sp.simul_params(), no_focus=nf, no_lift=nl, plate_scale_idx=psi, target_device_idx=-1)
        ps = rng.normal(size=3) if psi is not None and rng.random() < 0.7 else np.zeros(3)
        o.ps_coeff = ps.astype(dt)     # stands for the coefficients of two particular mirrors
        c.describe(kind='linear', sizes=sizes, psi=psi)
        ins = [sp.val(np.zeros(n, dtype=dt)) for n in sizes]
        o.inputs['in_vectors_list'].set(ins)
        o.setup()
        for k in range(int(rng.integers(2, 5))):
            t = k * DT
            X = []
            for v in ins:
                if k == 0 or rng.random() < 0.6:
                    v.value = rng.normal(size=len(v.value)).astype(dt)
                    v.generation_time = t
                X.append(v.value.copy())
            if not sp.step(o, t):
                continue
            q = [x.astype(float) for x in X]
            want = q[0].copy()
            ngs = q[-1]
            want[:2] = ngs[:2]
            if not nf:
                want[2] = q[1][0]
            if psi is not None:
                want[2:5] -= ngs[2:] * ps
                want[psi:psi + 3] = ngs[2:]
            if not nl:
                want = np.concatenate([want, q[1 if nf else 2]])
            out = o.outputs['out_vector']
            near(c, out.value, want, 'linear', mag=3, step=k)
            c.check(out.generation_time == t and out.value.dtype == dt, 'time-or-precision')
            c.check(all(np.array_equal(v.value, x) for v, x in zip(ins, X)), 'input-changed')
            c.saw('combinations')
        for wrong in ([5], [5] * 5, [9] * (len(sizes) + 1 if len(sizes) < 4 else 3)):
            b = LinearCombination(sp.simul_params(), no_focus=nf, no_lift=nl, target_device_idx=-1)
            b.inputs['in_vectors_list'].set([sp.val(np.zeros(n, dtype=dt)) for n in wrong])
            c.raises(ValueError, b.setup, 'count-refused')
    else:
        lo = [int(rng.integers(1, 4)), int(rng.integers(0, 3)), int(rng.integers(1, 4))]
        nF = int(rng.integers(1, 3))
        od = [lo[0] + lo[2] + nF + int(rng.integers(1, 8)), lo[1] + int(rng.integers(1, 6)), lo[2] + int(rng.integers(1, 6))]
        nP = int(rng.integers(0, 5))
        ho = [od[0] - lo[0] - nF, od[1] - lo[1], od[2] - lo[2]]
        kv = rng.normal(size=lo[2])
        A = rng.normal(size=(od[0] + int(rng.integers(0, 4)), max(nP, 1))).astype(dt)
        rm = Recmat(A.copy(), target_device_idx=-1)
        o = MirrorCommandsCombinator(kv.tolist() if rng.integers(2) else kv, rm, dims_LO=lo, dims_P=nP, dims_F=nF, out_dims=od, target_device_idx=-1)
        c.describe(kind='mirror', lo=lo, nF=nF, od=od, nP=nP)
        # the second mirror takes high orders only (documented null low-order vector)
        if lo[1]:
            c.skip()
            return
        names = {'HO': sum(ho), 'LO': sum(lo), 'F': nF, 'P': max(nP, 1)}
        ins = {n: sp.val(np.zeros(s, dtype=dt)) for n, s in names.items()}
        for n, v in ins.items():
            o.inputs['in_commands' + n].set(v)
        o.setup()
        for k in range(int(rng.integers(2, 5))):
            t = k * DT
            X = {}
            for n, v in ins.items():
                if k == 0 or rng.random() < 0.5:
                    v.value = rng.normal(size=len(v.value)).astype(dt)
                    v.generation_time = t
                X[n] = v.value.copy()
            if not sp.step(o, t):
                continue
            q = {n: x.astype(float) for n, x in X.items()}
            l1, l3 = q['LO'][:lo[0]], q['LO'][lo[0] + lo[1]:]
            h1, h2, h3 = np.split(q['HO'], [ho[0], ho[0] + ho[1]])
            y1 = np.concatenate([l1, q['F'], h1])
            y1[lo[0]:lo[0] + lo[2]] += kv * l3
            if nP:
                y1 = y1 + A[:od[0]].astype(float) @ q['P']
            for i, w in enumerate([y1, h2, np.concatenate([l3, h3])]):
                out = o.outputs[f'out_result_commands{i + 1}']
                near(c, out.value, w, f'mirror{i + 1}', mag=10, step=k)
                c.check(out.generation_time == t and out.value.dtype == dt, 'time-or-precision')
            c.check(all(np.array_equal(v.value, X[n]) for n, v in ins.items()), 'input-changed')
            c.check(np.array_equal(rm.recmat, A), 'shared-matrix')
            c.saw('combinations')


@CHECK.section('multirate', quick=200, thorough=8000, precisions=(0, 1), chunk=50)
def multirate(c):
    """multi-rate reconstruction followed by the complementary filter"""
    import itertools
    import numpy as np
    from harness import sp
    from specula.data_objects.recmat import Recmat
    from specula.data_objects.iir_filter_data import IirFilterData
    from specula.processing_objects.modalrec_multirate import ModalrecMultirate
    from specula.processing_objects.multirate_complementary_filter import MultirateComplementaryFilter
    from checks.c11 import ref_filter, delayed, rand_delay, stable_den
    rng = c.rng
    dt = np.float64 if c.precision == 0 else np.float32
    nslow = int(rng.integers(1, 4))
    N = [int(x) for x in rng.integers(2, 6, size=nslow)]
    nm = int(rng.integers(1, 6))
    T = int(rng.integers(8, 31))
    mode = str(sp.pick(rng, ['chain', 'separate', 'vector']))
    delay = rand_delay(rng)
    g = float(rng.uniform(0, 0.5))
    w = rng.uniform(0.1, 3, size=nslow + 1)
    nnum = int(rng.integers(1, 3))
    nden = int(rng.integers(1, 4))
    num = rng.normal(size=(nm, nnum))
    den = np.stack([stable_den(rng, nden - 1)[::-1] for _ in range(nm)])
    # stored arrays have the same length (oldest first)
    L = max(nnum, nden)
    if rng.random() < 0.7:
        num = np.concatenate([np.zeros((nm, L - nnum)), num], axis=1)
        den = np.concatenate([np.zeros((nm, L - nden)), den], axis=1)
    gm = rng.uniform(0.5, 1.5, size=nm) if rng.random() < 0.3 else None
    c.describe(mode=mode, N=N, nm=nm, T=T, delay=delay, g=g, nnum=nnum, nden=nden)
    n = num.shape[1]
    iir = IirFilterData([num.shape[1]] * nm, [den.shape[1]] * nm, num.astype(dt), den.astype(dt), target_device_idx=-1)
    idx = None
    if mode == 'vector':
        perm = rng.permutation(nm * (nslow + 1) + int(rng.integers(0, 4)))
        idx = [[int(x) for x in perm[i * nm:(i + 1) * nm]] for i in range(nslow + 1)]
    kw = dict(idx_yf=idx[0], idx_ys=idx[1:]) if idx else {}
    f = MultirateComplementaryFilter(sp.simul_params(), iir, g, [float(x) for x in w], N, delay=delay,
                                     validate_sync=mode != 'chain', target_device_idx=-1, **kw)
    fast, slow = np.zeros(nm), [np.zeros(nm) for _ in N]
    if gm is not None:
        gv = sp.val(gm.astype(dt))
        f.inputs['gain_mod'].set(gv)
    rec = None
    if mode == 'chain':
        sizes = [int(x) for x in rng.integers(1, 6, size=nslow + 1)]
        masks = [m for m in itertools.product([False, True], repeat=nslow + 1) if m[0]]
        mats = {m: rng.normal(size=(nm, sum(sizes))).astype(dt) for m in masks}
        rec = ModalrecMultirate([Recmat(mats[m].copy(), target_device_idx=-1) for m in masks], [list(m) for m in masks], nm, target_device_idx=-1)
        sl = [mkslopes(k, dt) for k in sizes]
        rec.inputs['in_slopes_list'].set(sl)
        rec.setup()
        f.inputs['in_yf'].set(rec.outputs['out_modes_0'])
        f.inputs['in_ys'].set([rec.outputs[f'out_modes_{i + 1}'] for i in range(nslow)])
    elif mode == 'separate':
        vf, vs = sp.val(np.zeros(nm, dtype=dt)), [sp.val(np.zeros(nm, dtype=dt)) for _ in N]
        f.inputs['in_yf'].set(vf)
        f.inputs['in_ys'].set(vs)
    else:
        vec = sp.val(np.zeros(len(perm), dtype=dt))
        f.inputs['in_vec'].set(vec)
    f.setup()
    ws = w / w.sum()
    us, outs, nodel = [], [], []
    yprev = np.zeros(nm)
    x = None
    for k in range(T):
        t = k * DT
        due = [(k + 1) % q == 0 for q in N]
        if mode == 'chain':
            fresh = [True] + due
            if x is None:
                x = [np.zeros(s) for s in sizes]
            for i, fr in enumerate(fresh):
                if fr:
                    x[i] = rng.normal(size=sizes[i]).astype(dt)
                    sl[i].slopes = x[i].copy()
                    sl[i].generation_time = t
            c.check(sp.step(rec, t), 'rec-runs')
            M = mats[tuple(fresh)].astype(float)
            off = np.concatenate([[0], np.cumsum(sizes)])
            y = []
            for i in range(nslow + 1):
                want = M[:, off[i]:off[i + 1]] @ x[i].astype(float) if fresh[i] else np.zeros(nm)
                near(c, rec.outputs[f'out_modes_{i}'].value, want, 'multirate-rec', mag=np.abs(M).max() * np.abs(x[i]).max() * sizes[i], step=k, sensor=i)
                c.check(rec.outputs[f'out_modes_{i}'].generation_time == t, 'time:rec')
                y.append(want)
            c.check(all(np.array_equal(s.slopes, a) for s, a in zip(sl, x)), 'input-changed')
            fast, slow = y[0], y[1:]
        else:
            fast = rng.normal(size=nm).astype(dt)
            slow = [rng.normal(size=nm).astype(dt) if d or mode == 'vector' else s for s, d in zip(slow, due)]
            if mode == 'separate':
                sp.setval(vf, fast.copy(), t)
                for v, s, d in zip(vs, slow, due):
                    if d:
                        sp.setval(v, s.copy(), t)
            else:
                a = rng.normal(size=len(perm)).astype(dt)
                a[idx[0]] = fast
                for i, s in zip(idx[1:], slow):
                    a[i] = s
                sp.setval(vec, a, t)
        if gm is not None:
            gv.generation_time = t
        c.check(sp.step(f, t), 'filter-runs')
        u = (1 + g * ws[0]) * fast - yprev
        for q, s, d, wi in zip(N, slow, due, ws[1:]):
            if d:
                u = u + g * wi * q * np.asarray(s, float)
        yprev = np.asarray(fast, float)
        us.append(u)
        outs.append(sp.arr(f.outputs['out_comm'].value))
        nodel.append(sp.arr(f.outputs['out_comm_no_delay'].value))
        c.check(f.outputs['out_comm'].generation_time == t and f.outputs['out_comm_no_delay'].generation_time == t, 'time')
        c.saw('filter steps')
    Y = ref_filter(num.astype(dt).astype(float), den.astype(dt).astype(float), us, [gm if gm is not None else np.ones(nm)] * T)
    sc = max(1.0, np.abs(Y).max())
    for k, (o, nd, y, yd) in enumerate(zip(outs, nodel, Y, delayed(Y, delay))):
        c.near(nd, y, f'filter:{mode}', rtol=0, atol=tol(c) * sc * 20, step=k)
        c.near(o, yd, f'delayed:{mode}', rtol=0, atol=tol(c) * sc * 20, step=k)
    if mode == 'separate':
        # a slow sensor updated at the wrong frame, or missing, is reported
        T0 = T
        due = [(T0 + 1) % q == 0 for q in N]
        j = int(rng.integers(nslow))
        t = T0 * DT
        sp.setval(vf, np.zeros(nm, dtype=dt), t)
        for i, (v, d) in enumerate(zip(vs, due)):
            if d != (i == j):
                v.generation_time = t
        c.raises(RuntimeError, lambda: sp.step(f, t), 'sync-refused')
    if mode == 'chain':
        # a validity state for which no matrix was given is refused
        t = T * DT
        sl[-1].generation_time = t
        c.raises(KeyError, lambda: sp.step(rec, t), 'unknown-state-refused')
