"""C07: stored telemetry equals what the simulation produced."""
from harness.vf import CheckDef
CHECK = CheckDef('C07', rule=(
    'store: real simulations whose sources publish random values of every storable type with random refresh patterns (new arrays or reused memory), '
    'several DataStore objects with random format/split/down-sampling/start time; an independent recorder hooked on the producers is compared with the '
    'files read back. buffer: the same producers through DataBuffer objects, every emission recorded. system: complete random AO simulations with all outputs stored. '
    'history: object-level histories. Non-trivial: at least one stored sample compared; distinct by configuration.'),
    assumptions=['values are stored in the numeric precision of the simulation'])

KINDS = ['vector', 'matrix', 'scalar', 'number', 'int', 'ef', 'pixels', 'slopes', 'intensity']


def make_sources(rng, nsteps, kinds=KINDS):
    from harness import sp
    ps = {}
    for k in range(int(rng.integers(1, 6))):
        L = int(rng.integers(1, 6))
        pat = [int(x) for x in (rng.random(L) < rng.uniform(0.2, 1))]
        if not any(pat):
            pat[int(rng.integers(L))] = 1
        if rng.random() < 0.3:
            pat = [1]
        ps[f'p{k}'] = {'class': 'VerifTyped', 'kind': str(sp.pick(rng, kinds)), 'size': int(rng.integers(1, 7)), 'seed': int(rng.integers(1 << 30)),
                       'pattern': pat, 'style': str(sp.pick(rng, ['rebind', 'inplace'])), 'scribble': bool(rng.random() < 0.5), 'outputs': ['out']}
    return ps


def published(mon, name, out='out'):
    """[(t, value)] really published by an object: recorded at the end of each of its runs where the output was refreshed"""
    r = []
    for (t, vals), (t2, digs) in zip(mon.values.get(name, []), mon.log.get(name, [])):
        if digs[out][0][1] == t:
            r.append((t, vals[out][0]))
    return r


def read_file(base, key, fmt):
    """(times, values, header) or None"""
    import os, pickle
    import numpy as np
    from astropy.io import fits
    fn = os.path.join(base, key + ('.fits' if fmt == 'fits' else '.pickle'))
    if not os.path.exists(fn):
        return None
    if fmt == 'fits':
        with fits.open(fn) as h:
            return np.array(h[1].data), np.array(h[0].data), h[0].header
    with open(fn, 'rb') as f:
        d = pickle.load(f)
    return d['times'], d['data'], d['hdr']


def tn_dirs(root):
    import os
    return sorted(os.path.join(root, d) for d in os.listdir(root) if os.path.isdir(os.path.join(root, d))) if os.path.isdir(root) else []


def expect(pub, start_ns, every):
    p = [x for x in pub if x[0] >= start_ns]
    return p[::every]


def compare(c, sec, key, kind, exp, pieces, dtype, every, split=None, run_times=None):
    """pieces: list of (times, values, hdr), in chronological order"""
    import numpy as np
    ts = [int(t) for p in pieces for t in np.asarray(p[0])]
    vs = [v for p in pieces for v in np.asarray(p[1])]
    c.saw('samples_expected', len(exp))
    if not c.check(ts == [t for t, _ in exp], f'{sec}:times', f'{key} ({kind}): stored at {ts[:8]}..({len(ts)}), published (down-sampled by {every}) at {[t for t, _ in exp][:8]}..({len(exp)})'):
        return
    for p in pieces:
        c.check(np.asarray(p[0]).dtype.kind in 'iu', f'{sec}:time-type', f'times stored as {np.asarray(p[0]).dtype}')
        c.check(p[2].get('DOWNSAMP') == every, f'{sec}:header', f'DOWNSAMP={p[2].get("DOWNSAMP")} expected {every}')
    for (t, v), w in zip(exp, vs):
        v = np.asarray(v).astype(dtype)
        ok = v.shape == np.asarray(w).shape and np.array_equal(v, np.asarray(w).astype(dtype))
        if not c.check(ok, f'{sec}:values', f'{key} ({kind}) at t={t}: stored {np.asarray(w).ravel()[:4]} shape {np.shape(w)}, published {v.ravel()[:4]} shape {v.shape}'):
            return
        c.check(np.asarray(w).dtype.itemsize == np.dtype(dtype).itemsize, f'{sec}:dtype', f'{key} stored as {np.asarray(w).dtype}')
    c.saw('samples_compared', len(exp))


@CHECK.section('store', quick=60, thorough=1500, precisions=(0, 1), chunk=8)
def store(c):
    import copy, os
    import numpy as np
    from harness import sp, monitor
    rng = c.rng
    nsteps = int(rng.integers(1, 30))
    dt = float(sp.pick(rng, [0.001, 0.0007, 0.0003, 0.01]))
    dt_ns = round(dt * 1e9)
    src = make_sources(rng, nsteps)
    stores = {}
    for k in range(int(rng.integers(1, 4))):
        fmt = str(sp.pick(rng, ['fits', 'pickle']))
        split = int(sp.pick(rng, [0, 0, 1, 2, 3, 5, 7, nsteps, nsteps + 3]))
        names = [n for n in src if rng.random() < 0.7] or ['p0']
        st = {'class': 'DataStore', 'store_dir': f'./out_{k}', 'data_format': fmt, 'split_size': split}
        every = {}
        if rng.random() < 0.5:
            n = int(sp.pick(rng, [1, 2, 3, 4, 7]))
            st['downsample_factor'] = n
            every = {f'k{x}': n for x in names}
        elif rng.random() < 0.5:
            d = {f'k{x}': int(rng.integers(1, 5)) for x in names if rng.random() < 0.6}
            st['downsample_factor_by_input'] = d
            every = dict(d)
        start = int(rng.integers(0, nsteps + 1)) if rng.random() < 0.4 else 0
        st['start_time'] = start * dt
        if rng.random() < 0.3:
            st['first_suffix'] = int(rng.integers(0, 20))
        if split == 0 and rng.random() < 0.4:
            st['create_tn'] = False
        st['inputs'] = {'input_list': [f'k{n}-{n}.out' for n in names]}
        stores[f'store{k}'] = (st, names, every, start * dt_ns, fmt, split)
    params = {'main': sp.main_params(nsteps, dt)}
    items = list(src.items()) + [(k, v[0]) for k, v in stores.items()]
    rng.shuffle(items) if rng.random() < 0.5 else None
    params.update(dict(items))
    c.describe(nsteps=nsteps, dt=dt, src={k: (v['kind'], v['style'], str(v['pattern'])) for k, v in src.items()},
               stores={k: {a: str(b) for a, b in v[0].items()} for k, v in stores.items()})
    s, mon = monitor.run_monitored(copy.deepcopy(params), isolation=False, keep_values=True)
    dtype = np.float64 if c.precision == 0 else np.float32
    for nm, (st, names, every, start_ns, fmt, split) in stores.items():
        root = st['store_dir']
        if st.get('create_tn') is False:
            dirs = [root]
        else:
            dirs = tn_dirs(root)
            if split == 0:
                c.check(len(dirs) == 1, 'store:directories', f'{len(dirs)} directories for one unsplit store')
            else:
                first = st.get('first_suffix', 0)
                num = {}
                for d in dirs:
                    tail = os.path.basename(d).rsplit('_', 1)[1].split('.')[0]
                    num[d] = int(tail)
                dirs = sorted(dirs, key=lambda d: num[d])
                c.check(len(set(num.values())) == len(dirs), 'store:split-names', f'chunk names collide: {dirs}')
                c.check([num[d] for d in dirs] == [first + split * i for i in range(len(dirs))] or not dirs, 'store:split-names', f'chunk suffixes {sorted(num.values())} for split_size={split}, first_suffix={first}')
        for n in names:
            key = 'k' + n
            ev = every.get(key, 1)
            exp = expect(published(mon, n), start_ns, ev)
            pieces = [p for p in (read_file(d, key, fmt) for d in dirs) if p is not None]
            for p in pieces:
                if split:
                    c.check(len(p[0]) <= split, 'store:split-size', f'chunk with {len(p[0])} samples, split_size={split}')
            compare(c, 'store', key, src[n]['kind'], exp, pieces, dtype, ev)


@CHECK.section('buffer', quick=60, thorough=1500, precisions=(0, 1), chunk=8)
def buffer(c):
    import copy
    import numpy as np
    from harness import sp, monitor
    from specula.processing_objects.data_buffer import DataBuffer
    rng = c.rng
    nsteps = int(rng.integers(1, 30))
    src = make_sources(rng, nsteps)
    params = {'main': sp.main_params(nsteps)}
    items = list(src.items())
    bufs = {}
    for k in range(int(rng.integers(1, 3))):
        names = [n for n in src if rng.random() < 0.8] or ['p0']
        size = int(sp.pick(rng, [1, 2, 3, 4, 7, 10, nsteps, nsteps + 1]))
        bufs[f'buf{k}'] = (size, names)
        items.append((f'buf{k}', {'class': 'DataBuffer', 'buffer_size': size, 'inputs': {'input_list': [f'k{n}-{n}.out' for n in names]}}))
    params.update(dict(items))
    store_buf = rng.random() < 0.5
    if store_buf:
        for k, (size, names) in bufs.items():
            params['st_' + k] = {'class': 'DataStore', 'store_dir': './o_' + k, 'create_tn': False, 'data_format': str(sp.pick(rng, ['fits', 'pickle'])),
                                 'inputs': {'input_list': [f'r{n}-{k}.k{n}_buffered' for n in names] + [f'raw{n}-{n}.out' for n in names]}}
    c.describe(nsteps=nsteps, src={k: (v['kind'], v['style'], str(v['pattern'])) for k, v in src.items()}, bufs={k: str(v) for k, v in bufs.items()}, store_buf=store_buf)
    emitted = {}
    orig_post, orig_fin = DataBuffer.post_trigger, DataBuffer.finalize

    def collect(self, when):
        for k, o in self.outputs.items():
            L = emitted.setdefault((self.name, k), [])
            if o.generation_time >= 0 and o.value is not None and (not L or L[-1][0] != o.generation_time):
                L.append((o.generation_time, np.array(o.value, copy=True), when))

    def post(self):
        r = orig_post(self)
        collect(self, 'loop')
        return r

    def fin(self):
        r = orig_fin(self)
        collect(self, 'end')
        return r
    DataBuffer.post_trigger, DataBuffer.finalize = post, fin
    try:
        s, mon = monitor.run_monitored(copy.deepcopy(params), isolation=False, keep_values=True)
    finally:
        DataBuffer.post_trigger, DataBuffer.finalize = orig_post, orig_fin
    for bn, (size, names) in bufs.items():
        pubs = {n: published(mon, n) for n in names}
        runs = sorted({t for p in pubs.values() for t, _ in p})          # the buffer runs when something is refreshed
        ends = [runs[i] for i in range(size - 1, len(runs), size)]
        if len(runs) % size and runs:
            ends.append(None)                                            # remainder emitted by finalize
        for n in names:
            got = emitted.get((bn, f'k{n}_buffered'), [])
            lo = -1
            exp = []
            for e in ends:
                hi = e if e is not None else runs[-1]
                w = [v for t, v in pubs[n] if lo < t <= hi]
                if w:
                    exp.append((hi, w))
                lo = hi
            c.saw('emissions', len(got))
            if exp and ends[-1] is None and got and len(got) == len(exp) and got[-1][0] > exp[-1][0]:
                exp[-1] = (got[-1][0], exp[-1][1])           # the remainder is stamped with the time of the last step
            if not c.check([g[0] for g in got] == [e[0] for e in exp], 'buffer:emission-times', f'{bn}.k{n}_buffered emitted at {[g[0] for g in got]}, expected {[e[0] for e in exp]} (size {size})'):
                continue
            for g, (t, w) in zip(got, exp):
                w = np.array(w)
                c.check(g[1].shape == w.shape and np.array_equal(g[1].astype(float), w.astype(float)), 'buffer:samples', f'{bn}.k{n}_buffered at t={t}: {g[1].shape} {g[1].ravel()[:4]} expected {w.shape} {w.ravel()[:4]}')
                c.saw('buffered_samples', len(w))
        if store_buf:
            fmt = params['st_' + bn]['data_format']
            dtype = np.float64 if c.precision == 0 else np.float32
            for n in names:
                raw = read_file('./o_' + bn, 'raw' + n, fmt)
                compare(c, 'buffer-store', 'raw' + n, src[n]['kind'], pubs[n], [raw] if raw else [], dtype, 1)
                got = emitted.get((bn, f'k{n}_buffered'), [])
                f = read_file('./o_' + bn, 'r' + n, fmt)
                if got and len({g[1].shape for g in got}) == 1:
                    compare(c, 'buffer-store', 'r' + n, src[n]['kind'], [g[:2] for g in got], [f] if f else [], dtype, 1)


@CHECK.section('system', quick=16, thorough=250, precisions=(0, 1), chunk=4)
def system(c):
    import copy
    import numpy as np
    from harness import sp, zoo, monitor
    rng = c.rng
    params, info = zoo.system(rng, nsteps=int(rng.integers(3, 9)))
    ex = zoo.observers(rng, params, info, npick=int(rng.integers(3, 9)), store=False)
    ex.pop('o_buf', None)
    params.update(copy.deepcopy(ex))
    wanted = []
    for nm, p in params.items():
        for o in p.get('outputs', []) or []:
            if isinstance(o, str) and 'layer' not in o and 'list' not in o:
                wanted.append((nm, o))
    fmt = str(sp.pick(rng, ['fits', 'pickle']))
    every = int(sp.pick(rng, [1, 1, 2, 3]))
    names = {f'{nm}__{o}'.replace('.', '_'): (nm, o) for nm, o in wanted}
    params['vstore'] = {'class': 'DataStore', 'store_dir': './vout', 'create_tn': False, 'data_format': fmt, 'downsample_factor': every,
                        'inputs': {'input_list': [f'{k}-{nm}.{o}' for k, (nm, o) in names.items()]}}
    c.describe(atmo=info['atmo'], wfs=info['wfs'], ctl=info['ctl'], observers=list(ex), fmt=fmt, every=every)
    s, mon = monitor.run_monitored(copy.deepcopy(params), isolation=False, keep_values=True)
    dtype = np.float64 if c.precision == 0 else np.float32
    last = max(t for v in mon.log.values() for t, _ in v)
    n = 0
    for key, (nm, o) in names.items():
        if o not in s.objs[nm].outputs:
            continue
        exp = expect(published(mon, nm, o), 0, every)
        f = read_file('./vout', key, fmt)
        # objects that publish (or refresh) something while finalising are stored with that final value
        obj = s.objs[nm].outputs[o]
        fin = np.array(obj.get_value(), copy=True)
        if obj.generation_time == last:
            if exp and exp[-1][0] == last:
                exp[-1] = (last, fin)
            elif not any(t == last for t, _ in published(mon, nm, o)):
                allp = published(mon, nm, o)
                if len(allp) % every == 0:
                    exp.append((last, fin))
        n += len(exp)
        compare(c, 'system', f'{nm}.{o}', type(obj).__name__, exp, [f] if f else [], dtype, every)
    c.saw('outputs_stored', len(names))


@CHECK.section('history', quick=200, thorough=4000, precisions=(0, 1), chunk=100)
def history(c):
    """data store and buffer driven step by step, in the order of a schedule with gaps; TimeHistory data"""
    import numpy as np
    from harness import sp
    from specula.processing_objects.data_store import DataStore
    from specula.connections import InputValue
    from specula.data_objects.time_history import TimeHistory
    rng = c.rng
    nin = int(rng.integers(1, 4))
    fmt = str(sp.pick(rng, ['fits', 'pickle']))
    every = int(rng.integers(1, 5))
    split = int(sp.pick(rng, [0, 0, 2, 3, 4]))
    nsteps = int(rng.integers(1, 25))
    dt = int(rng.integers(1, 3_000_000))
    t0 = int(rng.integers(0, 10**9))
    c.describe(nin=nin, fmt=fmt, every=every, split=split, nsteps=nsteps, dt=dt)
    d = DataStore(store_dir='./hist', data_format=fmt, downsample_factor=every, split_size=split, create_tn=True)
    d.setParams({})
    vals, pub = [], [[] for _ in range(nin)]
    dtype = np.float64 if c.precision == 0 else np.float32
    for k in range(nin):
        v = sp.val(np.zeros(3, dtype=dtype))
        d.inputs[f'i{k}'] = InputValue(type=type(v))
        d.inputs[f'i{k}'].set(v)
        vals.append(v)
    d.setup()
    for i in range(nsteps):
        t = t0 + i * dt
        for k, v in enumerate(vals):
            if rng.random() < 0.6:
                a = rng.normal(size=3).astype(dtype)
                if rng.random() < 0.5:
                    v.value[:] = a
                    v.generation_time = t
                else:
                    sp.setval(v, a.copy(), t)
                pub[k].append((t, a))
        sp.step(d, t)
    late = [k for k in range(nin) if not (pub[k] and pub[k][-1][0] == t) and rng.random() < 0.4]
    for k in late:
        # published at the end of the run, by the finalize() of another object
        a = rng.normal(size=3).astype(dtype)
        sp.setval(vals[k], a.copy(), t)
        pub[k].append((t, a))
    c.saw('samples published at the end of the run', len(late))
    d.finalize()
    dirs = tn_dirs('./hist')
    import os
    if split:
        dirs.sort(key=lambda x: int(os.path.basename(x).rsplit('_', 1)[1].split('.')[0]))
    for k in range(nin):
        pieces = [p for p in (read_file(x, f'i{k}', fmt) for x in dirs) if p is not None]
        compare(c, 'history', f'i{k}', 'vector', pub[k][::every], pieces, dtype, every)
    import shutil
    shutil.rmtree(os.path.abspath('./hist'), ignore_errors=True)
