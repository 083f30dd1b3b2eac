"""C20: calibration recovers the response of the system that was poked."""
from harness.vf import CheckDef
CHECK = CheckDef('C20', rule=(
    'Each case closes a calibrator around a random affine system (slopes = D c + s0) with a random poke sequence (push-pull generator or '
    'random order/amplitudes/repetitions, frames without poke, pokes outside the calibrated range, commands refreshed without new slopes), '
    'runs it through the public step protocol to the end and compares the matrices it publishes and saves with D, the reconstructor with '
    'the generalised inverse (or the MMSE formula evaluated independently), slope references and dark frames with the mean of exactly the '
    'frames requested. Non-trivial: at least one poked mode or averaged frame compared; distinct by configuration.'),
    assumptions=['singular-value cut-off for rank deficient matrices is not covered',
                 'pokes of several modes at once are not covered'])

DT = 1_000_000


def close(c, got, want, key, mag=None, k=1.0, **w):
    import numpy as np
    want = np.asarray(want, float)
    t = (1e-10 if c.precision == 0 else 3e-5) * k
    sc = max(float(np.abs(want).max(initial=0)), mag or 0, 1e-12)
    c.near(got, want, key, rtol=t, atol=t * sc, **w)


def mkslopes(n, interleave=False):
    from specula.data_objects.slopes import Slopes
    return Slopes(length=n, interleave=interleave, target_device_idx=-1)


def sequence(rng, nm, first, ncal):
    """list of (mode or None, amplitude): each poked calibrated mode gets balanced amplitudes"""
    import numpy as np
    seq = []
    poked = [m for m in range(first, min(nm, first + ncal)) if rng.random() < 0.85]
    for m in poked:
        a = float(rng.uniform(0.5, 20))
        for _ in range(int(rng.integers(1, 4))):
            seq += [(m, a), (m, -a)]
    for m in range(nm):
        if not first <= m < first + ncal and rng.random() < 0.6:
            seq += [(m, 3.0), (m, -3.0)]
    seq += [(None, 0.0)] * int(rng.integers(0, 4))
    if rng.random() < 0.7:
        seq = [seq[int(i)] for i in rng.permutation(len(seq))]
    return poked, seq


@CHECK.section('im', quick=160, thorough=5000, precisions=(0, 1), chunk=40)
def im(c):
    import os
    import numpy as np
    from harness import sp
    from specula.data_objects.intmat import Intmat
    from specula.data_objects.recmat import Recmat
    from specula.processing_objects.im_calibrator import ImCalibrator
    from specula.processing_objects.rec_calibrator import RecCalibrator
    from specula.processing_objects.push_pull_generator import PushPullGenerator
    rng = c.rng
    nm = int(rng.integers(1, 8))
    first = int(rng.integers(0, nm)) if rng.random() < 0.5 else 0
    ncal = int(rng.integers(1, nm - first + 1)) if rng.random() < 0.5 else nm - first
    ns = nm + int(rng.integers(0, 8))
    D = rng.normal(size=(ns, nm)) + 2 * np.eye(ns, nm)
    s0 = rng.normal(size=ns) * (rng.random() < 0.6)
    usegen = rng.random() < 0.35
    d = f'{"sub/" * int(rng.integers(0, 2))}im{c.i}'
    gen = None
    if usegen:
        kw = dict(nmodes=nm, first_mode=first, amp=float(rng.uniform(1, 30)), ncycles=int(rng.integers(1, 3)), nsamples=int(rng.integers(1, 3)))
        if rng.random() < 0.4:
            kw['pattern'] = [1, -1, -1, 1]
        gen = PushPullGenerator(**kw, target_device_idx=-1)
        gen.setup()
        n = (nm - first) * len(kw.get('pattern', [1, -1])) * kw['ncycles'] * kw['nsamples']
        poked = list(range(first, min(nm, first + ncal)))
        seq = [None] * n
    else:
        poked, seq = sequence(rng, nm, first, ncal)
    decim = 1 if gen is None or kw['nsamples'] == 1 else int(rng.integers(1, 3))
    c.describe(nm=nm, first=first, ncal=ncal, ns=ns, gen=bool(gen), n=len(seq), decim=decim, offset=bool(s0.any()))
    cal = ImCalibrator(nmodes=ncal, data_dir=d, im_tag='x', first_mode=first, target_device_idx=-1)
    rec = RecCalibrator(nmodes=None if ncal == 1 or rng.random() < 0.5 else max(1, ncal - 1), data_dir=d + 'r', rec_tag='y', target_device_idx=-1)
    sl = mkslopes(ns)
    cm = gen.outputs['output'] if gen else sp.val(np.zeros(nm, dtype=sl.dtype))
    cal.inputs['in_slopes'].set(sl)
    cal.inputs['in_commands'].set(cm)
    rec.inputs['in_intmat'].set(cal.outputs['out_intmat'])
    if rng.random() < 0.2:
        cal.verbose = True
    cal.setup()
    t = 0
    step = 0
    stale = 0
    for item in seq:
        t += DT
        if gen:
            sp.step(gen, t)
        else:
            # now and then the command arrives before the slopes
            v = np.zeros(nm, dtype=sl.dtype)
            if item[0] is not None:
                v[item[0]] = item[1]
            sp.setval(cm, v, t)
            if rng.random() < 0.2:
                with sp.quiet():
                    sp.step(cal, t)
                stale += 1
                t += DT
        step += 1
        if step % decim == 0:
            sl.slopes[:] = D @ np.asarray(cm.value, float) + s0
            sl.generation_time = t
        u = sp.arr(cm.value)
        v = sl.slopes.copy()
        with sp.quiet():
            sp.step(cal, t)
        c.check(np.array_equal(u, cm.value) and np.array_equal(v, sl.slopes), 'input-changed')
        sp.step(rec, t) if rec.check_ready(t) else None
    if not poked:
        c.skip()
        return
    want = np.zeros((ns, ncal))
    for m in poked:
        want[:, m - first] = D[:, m]
    with sp.quiet():
        cal.finalize()
        rec.finalize()
    out = cal.outputs['out_intmat']
    mag = np.abs(D).max() + 2 * np.abs(s0).max() + 1
    close(c, out.intmat, want, 'intmat', mag=mag)
    c.check(out.intmat.shape == (ns, ncal), 'shape')
    disk = Intmat.restore(os.path.join(d, 'x.fits'), target_device_idx=-1)
    c.check(np.array_equal(disk.intmat, out.intmat), 'saved-intmat')
    R = Recmat.restore(os.path.join(d + 'r', 'y.fits'), target_device_idx=-1).recmat
    k = rec.nmodes if rec.nmodes is not None else ncal
    sub = want[:, :k]
    if np.linalg.matrix_rank(sub) == k:
        cond = np.linalg.cond(sub)
        if cond < 1e3:
            close(c, R, np.linalg.pinv(sub), 'reconstructor', mag=1, k=cond * 10)
            a = rng.normal(size=k)
            full = np.zeros(nm)
            full[first:first + k] = a
            close(c, R @ (D @ full), a, 'commanded-modes-recovered', mag=mag, k=cond * 20)
            c.saw('inversions')
    c.saw('modes', len(poked))
    c.saw('stale-slope steps', stale)
    c.raises(FileExistsError, lambda: ImCalibrator(nmodes=ncal, data_dir=d, im_tag='x', target_device_idx=-1), 'overwrite-refused')
    c.raises(FileExistsError, lambda: RecCalibrator(nmodes=ncal, data_dir=d + 'r', rec_tag='y', target_device_idx=-1), 'overwrite-refused')


@CHECK.section('multi', quick=100, thorough=3000, precisions=(0, 1), chunk=25)
def multi(c):
    import os
    import numpy as np
    from harness import sp
    from specula.data_objects.intmat import Intmat
    from specula.data_objects.recmat import Recmat
    from specula.processing_objects.multi_im_calibrator import MultiImCalibrator
    from specula.processing_objects.multi_rec_calibrator import MultiRecCalibrator
    rng = c.rng
    nm = int(rng.integers(1, 7))
    nsen = int(rng.integers(1, 4))
    ncal = int(rng.integers(1, nm + 1)) if rng.random() < 0.4 else nm
    NS = [nm + int(x) for x in rng.integers(0, 5, size=nsen)]
    D = [rng.normal(size=(n, nm)) + 2 * np.eye(n, nm) for n in NS]
    S0 = [rng.normal(size=n) * (rng.random() < 0.5) for n in NS]
    d = f'multi{c.i}' if rng.random() < 0.6 else os.path.abspath(f'multi{c.i}')
    full = rng.random() < 0.7
    poked, seq = sequence(rng, nm, 0, ncal)
    c.describe(nm=nm, NS=NS, ncal=ncal, full=bool(full), n=len(seq), rel=not os.path.isabs(d))
    if not poked:
        c.skip()
        return
    tags = [f's{i}' for i in range(nsen)]
    cal = MultiImCalibrator(nmodes=ncal, n_inputs=nsen, data_dir=d, im_tag=tags, full_im_tag='full' if full else None, target_device_idx=-1)
    rec = MultiRecCalibrator(nmodes=ncal, data_dir=d + 'r', rec_tag='r', full_rec_tag='fullr' if full else None, target_device_idx=-1)
    sl = [mkslopes(n) for n in NS]
    # one command vector for all, or one per mirror section
    ncm = int(rng.integers(1, 3))
    cms = [sp.val(np.zeros(nm, dtype=sl[0].dtype)) for _ in range(ncm)]
    cal.inputs['in_slopes_list'].set(sl)
    cal.inputs['in_commands_list'].set(cms)
    rec.inputs['intmat_list'].set(cal.outputs['out_intmat_list'])
    rec.inputs['full_intmat'].set(cal.outputs['out_intmat_full'])
    cal.setup()
    rec.setup()
    t = 0
    for m, a in seq:
        t += DT
        v = np.zeros(nm, dtype=sl[0].dtype)
        if m is not None:
            v[m] = a
        j = int(rng.integers(ncm))
        for i, cm in enumerate(cms):
            sp.setval(cm, v.copy() if i == j else np.zeros_like(v), t)
        if rng.random() < 0.2:
            sp.step(cal, t)     # commands only
            t += DT
            c.saw('stale-slope steps')
        for s, dd, z in zip(sl, D, S0):
            s.slopes[:] = dd @ v.astype(float) + z
            s.generation_time = t
        keep = [s.slopes.copy() for s in sl]
        sp.step(cal, t)
        c.check(all(np.array_equal(k, s.slopes) for k, s in zip(keep, sl)), 'input-changed')
        if rec.check_ready(t):
            rec.trigger()
            rec.post_trigger()
    cal.finalize()
    rec.finalize()
    wants = []
    for i in range(nsen):
        w = np.zeros((NS[i], ncal))
        w[:, poked] = D[i][:, poked]
        wants.append(w)
        mag = np.abs(D[i]).max() + 2 * np.abs(S0[i]).max() + 1
        got = cal.outputs['out_intmat_list'][i]
        close(c, got.intmat, w, 'intmat', mag=mag, sensor=i)
        disk = Intmat.restore(os.path.join(d, tags[i] + '.fits'), target_device_idx=-1)
        c.check(np.array_equal(disk.intmat, got.intmat), 'saved-intmat', f'sensor {i}')
        R = Recmat.restore(os.path.join(d + 'r', f'r{i}.fits'), target_device_idx=-1).recmat
        if np.linalg.matrix_rank(w) == ncal and np.linalg.cond(w) < 1e3:
            close(c, R, np.linalg.pinv(w), 'reconstructor', mag=1, k=10 * np.linalg.cond(w), sensor=i)
    W = np.vstack(wants)
    close(c, cal.outputs['out_intmat_full'].intmat, W, 'full-intmat', mag=mag)
    if full:
        disk = Intmat.restore(os.path.join(d, 'full.fits'), target_device_idx=-1)
        c.check(np.array_equal(disk.intmat, cal.outputs['out_intmat_full'].intmat), 'saved-full')
        R = Recmat.restore(os.path.join(d + 'r', 'fullr.fits'), target_device_idx=-1).recmat
        if np.linalg.matrix_rank(W) == ncal and np.linalg.cond(W) < 1e3:
            close(c, R, np.linalg.pinv(W), 'full-reconstructor', mag=1, k=10 * np.linalg.cond(W))
    names = sorted(tags + (['full'] if full else []))
    # (without a tag the full matrix goes to None.fits: the repository's own tests count on it, so no opinion here)
    c.check(sorted(set(os.listdir(d)) - {'None.fits'}) == [n + '.fits' for n in names], 'files', f'{os.listdir(d)}')
    c.saw('modes', len(poked) * nsen)


@CHECK.section('mmse', quick=120, thorough=4000, precisions=(0, 1), chunk=30)
def mmse(c):
    import numpy as np
    from harness import sp
    from specula.lib.mmse_reconstructor import compute_mmse_reconstructor
    rng = c.rng
    dt = np.float64 if c.precision == 0 else np.float32
    nm = int(rng.integers(1, 7))
    nw = int(rng.integers(1, 4))
    ns = nw * int(rng.integers(1, 6))
    ns = max(ns, 2)
    if ns % nw:
        nw = 1

    def spd(n, u, diag):
        q = rng.normal(size=(n, n))
        m = np.diag(rng.uniform(0.5, 2, size=n)) if diag else q @ q.T / n + 0.5 * np.eye(n)
        return m * u
    ua, un = 10.0 ** rng.integers(-14, 5), 10.0 ** rng.integers(-14, 5)
    # keep the two terms comparable, whatever the units
    A = rng.normal(size=(ns, nm)) * np.sqrt(un / ua)
    Ca = spd(nm, ua, rng.random() < 0.3)
    kind = str(sp.pick(rng, ['matrix', 'diag', 'variances', 'none', 'inverse', 'intmat']))
    kw = {}
    if kind in ('matrix', 'diag', 'inverse', 'intmat'):
        Cn = spd(ns, un, kind == 'diag')
        kw['c_noise'] = Cn.astype(dt)
    elif kind == 'variances':
        v = rng.uniform(0.5, 2, size=nw) * un
        Cn = np.diag(np.repeat(v, ns // nw))
        kw['noise_variance'] = [float(x) for x in v]
    else:
        A = A / np.sqrt(un)
        Cn = np.eye(ns)
    c.describe(kind=kind, nm=nm, ns=ns, ua=float(ua), un=float(un))
    a, ca = A.astype(dt), Ca.astype(dt)
    if kind == 'inverse':
        W = compute_mmse_reconstructor(a, np.linalg.inv(Ca).astype(dt), np, dt, c_noise=np.linalg.inv(Cn).astype(dt), c_inverse=True)
    else:
        W = compute_mmse_reconstructor(a, ca, np, dt, **kw)
    # the same estimator in its dual form: Cx A' (A Cx A' + Cz)^-1
    A, Ca, Cn = A.astype(dt).astype(float), Ca.astype(dt).astype(float), Cn.astype(dt).astype(float)
    want = Ca @ A.T @ np.linalg.inv(A @ Ca @ A.T + Cn)
    sc = np.abs(want).max()
    t = 1e-8 if c.precision == 0 else 2e-2
    c.near(np.asarray(W, float) / sc, want / sc, f'mmse:{kind}', rtol=0, atol=t)
    c.check(np.array_equal(a, A.astype(dt)) and np.array_equal(ca, Ca.astype(dt)), 'input-changed')
    c.saw('estimators')
    c.raises(ValueError, lambda: compute_mmse_reconstructor(a, np.eye(nm + 1), np, dt, **kw), 'size-refused')


@CHECK.section('reference', quick=160, thorough=5000, precisions=(0, 1), chunk=40)
def reference(c):
    """slope references, dark frames and matrices built from recorded slopes"""
    import os
    import numpy as np
    from harness import sp
    from specula.data_objects.intmat import Intmat
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.slopes import Slopes
    from specula.processing_objects.sn_calibrator import SnCalibrator
    from specula.processing_objects.dynamic_dark_calibrator import DynamicDarkCalibrator
    rng = c.rng
    kind = str(sp.pick(rng, ['sn', 'dark', 'dark', 'build']))
    if kind == 'sn':
        n = 2 * int(rng.integers(1, 10))
        il = bool(rng.integers(2))
        d = f'sn{c.i}'
        cal = SnCalibrator(d, **({'output_tag': 'z'} if rng.random() < 0.5 else {'output_tag': 'auto', 'tag_template': 'z'}), target_device_idx=-1)
        s = mkslopes(n, il)
        cal.inputs['in_slopes'].set(s)
        cal.setup()
        acc = []
        c.describe(kind=kind, n=n, il=il)
        for k in range(int(rng.integers(1, 9))):
            if k and rng.random() < 0.3:
                sp.step(cal, k * DT)
                continue
            s.slopes[:] = rng.normal(size=n) * 10
            s.generation_time = k * DT
            acc.append(s.slopes.astype(float))
            sp.step(cal, k * DT)
            c.check(np.array_equal(s.slopes, acc[-1].astype(s.dtype)), 'input-changed')
        cal.finalize()
        got = Slopes.restore(os.path.join(d, 'z.fits'), target_device_idx=-1)
        want = np.mean(acc, axis=0)
        close(c, got.slopes, want, 'slope-null', mag=10)
        close(c, got.xslopes, want[0::2] if il else want[:n // 2], 'slope-null-x', mag=10)
        close(c, got.yslopes, want[1::2] if il else want[n // 2:], 'slope-null-y', mag=10)
        c.saw('frames', len(acc))
        c.raises(FileExistsError, lambda: SnCalibrator(d, output_tag='z', target_device_idx=-1), 'overwrite-refused')
    elif kind == 'build':
        nm, ns = int(rng.integers(1, 6)), int(rng.integers(1, 9))
        D = rng.normal(size=(ns, nm))
        s0 = rng.normal(size=ns)
        poked, seq = sequence(rng, nm, 0, nm)
        c.describe(kind=kind, nm=nm, ns=ns, n=len(seq))
        S, U = {}, {}
        for k, (m, a) in enumerate(seq):
            u = np.zeros(nm)
            if m is not None:
                u[m] = a
            S[k * DT], U[k * DT] = D @ u + s0, u
        if not seq or not poked:
            c.skip()
            return
        im = Intmat.build_from_slopes(S, U, target_device_idx=-1)
        want = np.zeros((ns, nm))
        want[:, poked] = D[:, poked]
        close(c, im.intmat, want, 'built-from-slopes', mag=1 + 2 * np.abs(s0).max())
        c.saw('modes', len(poked))
    else:
        h, w = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        nf = int(rng.integers(1, 5))
        d = f'dark{c.i}'
        os.makedirs(d, exist_ok=True)
        cal = DynamicDarkCalibrator(d, nf, overwrite=True, target_device_idx=-1)
        px = Pixels(w, h, bits=16, signed=1, target_device_idx=-1)
        px.pixels[...] = rng.uniform(0, 100, size=(h, w))
        ctl = {n: sp.val(1) for n in ('trigger', 'nframes', 'reset', 'save', 'load')}
        cal.inputs['in_pixels'].set(px)
        for n, v in ctl.items():
            v.generation_time = -1
            cal.inputs['in_' + n].set(v)
        cal.setup()
        dark = np.zeros((h, w))
        left, n_acq, acc, files = 0, 0, None, {}
        hist = []
        for k in range(int(rng.integers(10, 40))):
            t = k * DT
            ev = [n for n in ctl if rng.random() < {'trigger': 0.2, 'nframes': 0.1, 'reset': 0.06, 'save': 0.08, 'load': 0.08}[n]]
            if 'load' in ev and ('reset' in ev or not files):
                ev.remove('load')
            fresh = rng.random() < 0.8
            if fresh:
                px.pixels[...] = rng.uniform(0, 100, size=(h, w))
                px.generation_time = t
            frame = px.pixels.astype(float)
            hist.append((k, bool(fresh), ev))
            for n in ev:
                ctl[n].generation_time = t
            if 'reset' in ev:
                dark = np.zeros((h, w))
            if 'nframes' in ev:
                bad = rng.random() < 0.2
                v = int(rng.integers(1, 5))
                ctl['nframes'].value = (0 if rng.integers(2) else 'many') if bad else v
                if not bad:
                    nf = v
            if 'trigger' in ev:
                left = n_acq = nf
                acc = np.zeros((h, w))
            if 'load' in ev:
                name = sp.pick(rng, sorted(files))
                ctl['load'].value = name
                dark = files[name]
            sub = frame - dark
            if left and fresh:
                acc = acc + frame
                left -= 1
                if left == 0:
                    dark = acc / n_acq
                    c.saw('dark frames')
            if 'save' in ev:
                name = f'f{int(rng.integers(3))}'
                ctl['save'].value = name
                files[name] = dark
            keep = px.pixels.copy()
            with sp.quiet():
                ran = sp.step(cal, t)
            c.check(ran == (fresh or bool(ev)), 'when-run')
            c.check(np.array_equal(keep, px.pixels), 'input-changed')
            close(c, cal.outputs['out_darkframe'].pixels, dark, 'dark-frame', mag=100, history=hist)
            if ran and fresh:
                close(c, cal.outputs['out_subtracted_pixels'].pixels, sub, 'subtracted', mag=100, history=hist)
                c.check(cal.outputs['out_subtracted_pixels'].generation_time == t, 'time')
        c.describe(kind=kind, hist=hist)


@CHECK.section('mmse_chain', quick=40, thorough=1200, precisions=(0, 1), chunk=20)
def mmse_chain(c):
    """reconstructors computed by the calibrator objects for a real mirror: the prior is that of the shapes the mirror makes"""
    import os
    import numpy as np
    from harness import sp
    from specula.data_objects.intmat import Intmat
    from specula.data_objects.m2c import M2C
    from specula.data_objects.recmat import Recmat
    from specula.data_objects.simul_params import SimulParams
    from specula.lib.modal_base_generator import compute_ifs_covmat
    from specula.processing_objects.dm import DM
    from specula.processing_objects.multi_rec_calibrator import MultiRecCalibrator
    from specula.processing_objects.rec_calibrator import RecCalibrator
    rng = c.rng
    npup = int(rng.integers(12, 21))
    prm = SimulParams(pixel_pupil=npup, pixel_pitch=float(rng.uniform(0.05, 0.4)))
    nif = int(rng.integers(4, 10))
    kw = {}
    how = str(sp.pick(rng, ['all', 'start', 'idx', 'm2c', 'm2c_start']))
    nvalid = nif
    if how in ('start', 'm2c_start'):
        kw['start_mode'] = int(rng.integers(1, nif - 1))
        nvalid = nif - kw['start_mode']
    if how == 'idx':
        ix = sorted(int(x) for x in rng.permutation(nif)[:rng.integers(2, nif)])
        kw['idx_modes'] = ix
        nvalid = len(ix)
    if how in ('m2c', 'm2c_start'):
        kw['m2c'] = M2C(rng.normal(size=(nif, nif)), target_device_idx=-1)
    if how != 'idx':
        kw['nmodes'] = nif
    else:
        kw.pop('nmodes', None)
    with sp.quiet():
        dm = DM(prm, height=0, type_str='zernike', target_device_idx=-1, obsratio=float(sp.pick(rng, [0, 0.2])), **kw)
    ncal = int(rng.integers(1, nvalid + 1))                 # modes used by the reconstructor
    ns = 2 * int(rng.integers(2, 9))
    A = rng.normal(size=(ns, nvalid))
    r0, L0 = float(rng.uniform(0.05, 0.3)), float(rng.uniform(10, 60))
    c.describe(how=how, nif=nif, npup=npup, ncal=ncal, ns=ns, r0=r0, L0=L0, dm={k: v for k, v in kw.items() if k != 'm2c'})
    # shapes the mirror makes for a unit command of each mode
    cmd = sp.val(np.zeros(nvalid))
    dm.inputs['in_command'].set(cmd)
    dm.setup()
    shapes = []
    for m in range(nvalid):
        cmd.value = dm.to_xp(np.eye(nvalid)[m])
        cmd.generation_time = m * DT
        sp.step(dm, m * DT)
        shapes.append(dm.outputs['out_layer'].phaseInNm.astype(float) * (-1 if dm.sign < 0 else 1))
    msk = np.asarray(dm.mask, bool)
    shp = np.array([s[msk] for s in shapes])
    ca = np.asarray(compute_ifs_covmat(msk.astype(float), prm.pixel_pitch * npup, shp, r0, L0, oversampling=2, xp=np, dtype=np.float64))
    # the prior itself: symmetric, positive, scales as r0^(-5/3) and as the product of the amplitudes
    c.near(ca, ca.T, 'prior-symmetric', rtol=0, atol=1e-9 * np.abs(ca).max())
    c.check(np.linalg.eigvalsh((ca + ca.T) / 2).min() > -1e-9 * np.abs(ca).max(), 'prior-positive')
    g = rng.uniform(0.5, 2, size=nvalid)
    ca2 = np.asarray(compute_ifs_covmat(msk.astype(float), prm.pixel_pitch * npup, shp * g[:, None], 2 * r0, L0, oversampling=2, xp=np, dtype=np.float64))
    c.near(ca2, ca * np.outer(g, g) * 2 ** (-5 / 3), 'prior-scaling', rtol=1e-6, atol=1e-9 * np.abs(ca).max())
    A = A * np.sqrt(1 / np.abs(ca).max())
    im = Intmat(A, target_device_idx=-1)
    multi = rng.random() < 0.3
    d = f'r{c.i}'
    ca, a = ca[:ncal, :ncal], np.asarray(im.intmat, float)[:, :ncal]
    tol = 1e-6 if c.precision == 0 else 3e-2
    if multi:
        # the multi-sensor calibrator inverts each matrix and the whole
        k = int(rng.integers(1, 4))
        ims = [Intmat(rng.normal(size=(nvalid + int(rng.integers(0, 5)), nvalid)), target_device_idx=-1) for _ in range(k)]
        full = Intmat(np.vstack([i.intmat for i in ims]), target_device_idx=-1)
        cal = MultiRecCalibrator(ncal, d, rec_tag='r', full_rec_tag='full', overwrite=True, target_device_idx=-1)
        cal.inputs['intmat_list'].set(ims)
        cal.inputs['full_intmat'].set(full)
        cal.setup()
        with sp.quiet():
            cal.finalize()
        got = Recmat.restore(os.path.join(d, 'full.fits'), target_device_idx=-1).recmat
        c.near(got, np.linalg.pinv(np.asarray(full.intmat, float)[:, :ncal]), 'full-rec', rtol=0, atol=1e-8 if c.precision == 0 else 1e-2)
        names = sorted(n for n in os.listdir(d) if not n.startswith('full'))
        c.eq(len(names), k, 'rec-files')
        for i, n in enumerate(names):
            want = np.linalg.pinv(np.asarray(ims[i].intmat, float)[:, :ncal])
            c.near(Recmat.restore(os.path.join(d, n), target_device_idx=-1).recmat, want, 'rec-of-each-sensor',
                   rtol=0, atol=(1e-8 if c.precision == 0 else 1e-2) * max(1, np.abs(want).max()), which=n)
        c.saw('reconstructors', k + 1)
        return
    form = str(sp.pick(rng, ['scalar', 'one', 'matrix', 'list', 'blocks', '1x1']))
    v = rng.uniform(0.3, 3, size=ns)
    if form in ('scalar', 'one', '1x1'):
        v[:] = v[0]
    cn = np.diag(v)
    if form == 'matrix':
        q = rng.normal(size=(ns, ns))
        cn = cn + q @ q.T / ns
    cov = {'scalar': float(v[0]), 'one': [float(v[0])], 'matrix': cn, 'list': [float(x) for x in v],
           'blocks': [v[:ns // 2], v[ns // 2:]], '1x1': np.array([[v[0]]])}[form]
    c.describe(form=form)
    cal = RecCalibrator(ncal, d, 'r', mmse=True, dm=dm, r0=r0, L0=L0, noise_cov=cov, overwrite=True, target_device_idx=-1)
    cal.inputs['in_intmat'].set(im)
    cal.setup()
    with sp.quiet():
        cal.finalize()
    got = np.asarray(Recmat.restore(os.path.join(d, 'r.fits'), target_device_idx=-1).recmat, float)
    want = ca @ a.T @ np.linalg.inv(a @ ca @ a.T + cn)
    sc = np.abs(want).max()
    c.near(got / sc, want / sc, f'rec-of-the-mirror-modes:{how}', rtol=0, atol=tol, form=form)
    c.near(np.asarray(im.intmat, float)[:, :ncal], a, 'input-changed', rtol=0, atol=0)
    c.saw('reconstructors')
    c.raises(ValueError, lambda: im.generate_rec_mmse(r0, L0, prm.pixel_pitch * npup, dm._ifunc, [1.0] * (ns + 1)), 'size-refused')


@CHECK.section('matrix', quick=60, thorough=3000, precisions=(0, 1), chunk=60)
def matrix(c):
    """reductions and views of an interaction matrix against a plain array"""
    import numpy as np
    from harness import sp
    from specula.data_objects.intmat import Intmat
    rng = c.rng
    m = rng.normal(size=(int(rng.integers(1, 9)), int(rng.integers(1, 9))))
    im = Intmat(m.astype(np.float32), target_device_idx=-1)      # exact in both precisions
    m = np.array(im.intmat, float)
    hist = []
    for _ in range(int(rng.integers(3, 12))):
        ns, nm = m.shape
        op = str(sp.pick(rng, ['nmodes', 'nslopes', 'cutm', 'cuts', 'start', 'modes', 'slopes', 'addm', 'refuse', 'rec']))
        if op == 'nmodes':
            n = int(rng.integers(1, nm + 3))
            im.set_nmodes(n)
            m = np.hstack([m, np.zeros((ns, max(0, n - nm)))])[:, :n]
        elif op == 'nslopes':
            n = int(rng.integers(1, ns + 3))
            im.set_nslopes(n)
            m = np.vstack([m, np.zeros((max(0, n - ns), nm))])[:n]
        elif op == 'cutm' and nm > 1:
            n = int(rng.integers(0, nm))
            im.reduce_size(n)
            m = m[:, :nm - n]
        elif op == 'cuts' and ns > 1:
            n = int(rng.integers(0, ns))
            im.reduce_slopes(n)
            m = m[:ns - n]
        elif op == 'start':
            n = int(rng.integers(0, nm))
            im.set_start_mode(n)
            m = m[:, n:]
        elif op == 'modes':
            i = int(rng.integers(nm))
            v = np.round(rng.normal(size=ns) * 8) / 8
            im.modes[i] = v
            m = m.copy()
            m[:, i] = v
        elif op == 'slopes':
            i = int(rng.integers(ns))
            v = np.round(rng.normal(size=nm) * 8) / 8
            im.slopes[i] = v
            m = m.copy()
            m[i] = v
        elif op == 'addm':
            i, j = sorted(int(x) for x in rng.integers(0, nm + 1, size=2))
            im.modes[i:j] += 1
            m = m.copy()
            m[:, i:j] = np.asarray(m[:, i:j].astype(im.intmat.dtype) + 1, float)
        elif op == 'refuse':
            c.raises(ValueError, lambda: im.reduce_size(nm), 'reduce-refused')
            c.raises(ValueError, lambda: im.reduce_slopes(ns), 'reduce-refused')
            c.raises(ValueError, lambda: im.set_start_mode(nm), 'start-refused')
        elif op == 'rec':
            n = int(rng.integers(1, nm + 1)) if rng.random() < 0.7 else None
            s = np.linalg.svd(m[:, :n], compute_uv=False)
            if s[-1] > 1e-2 * s[0]:
                want = np.linalg.pinv(m[:, :n])
                c.near(im.generate_rec(nmodes=n).recmat, want, 'rec', rtol=0, atol=1e-3 * np.abs(want).max())
        hist.append(op)
        c.check(im.intmat.shape == m.shape and (im.nslopes, im.nmodes) == m.shape, f'{op}:shape', got=str(im.intmat.shape), want=str(m.shape))
        c.check(np.array_equal(np.asarray(im.intmat, float), m), f'{op}:values', hist=hist)
        c.check(np.array_equal(im.modes[:], im.intmat) and np.array_equal(im.slopes[0], im.intmat[0]), f'{op}:views')
        c.saw(f'matrix {op}')
    c.describe(hist=hist)
