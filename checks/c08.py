"""C08: replaying stored data reproduces the original run."""
from harness.vf import CheckDef
CHECK = CheckDef('C08', rule=(
    'graphs: random object graphs (as in C01: same-step and ":-1" edges, input lists, slow producers, several publication styles) with '
    'one or two data stores in either format; every replay_params.yml written is run and each remaining recording object must see the '
    'same inputs, at the same times, in the same steps as in the original run. targeted: same, for a replay restricted to some objects. '
    'systems: complete random adaptive-optics systems with observers, replayed from stored telemetry; outputs of every remaining object '
    'compared bit by bit at every step. Distinct by configuration and stored set.'),
    assumptions=['the content of an output before its producer first publishes is not stored, so it is not compared (nor are systems replayed from stored mirror shapes, which are read before the first one is published)',
                 'stored at full rate (a replay of down-sampled data is refused by its users)'])
from checks.c01 import rand_graph, spec_str


def norm(ev):
    """event with unpublished inputs reduced to 'unset'"""
    if ev[0] in ('prepare', 'run', 'post'):
        seen = {k: tuple(v if v[1] >= 0 else 'unset' for v in vs) for k, vs in ev[3].items()}
        return ev[:3] + (tuple(sorted(seen.items())),)
    return ev[:2]


def trace(vp):
    out = {}
    for ev in vp.LOG:
        if ev[0] in ('prepare', 'run', 'post', 'setup', 'final'):
            out.setdefault(ev[1], []).append(norm(ev))
    return out


def make(c, rng, sp, nstores):
    n = int(rng.integers(2, 8))
    edges = rand_graph(rng, n)
    edges[0] = {}
    for j in range(1, n):       # delayed inputs alone never trigger an object: most get a same-step one as well
        if edges[j] and all(s[2] for v in edges[j].values() for s in (v if isinstance(v, list) else [v])) and rng.random() < 0.8:
            edges[j]['b' if 'a' in edges[j] else 'a'] = (int(rng.integers(0, j)), 'out', 0)
    names = [f'{sp.pick(rng, "abcdefgh")}{sp.pick(rng, ["x", "_", "node"])}{i}' for i in range(n)]
    params = {'main': sp.main_params(int(rng.integers(3, 7)))}
    objs = {}
    for j in rng.permutation(n):
        o = {'class': 'VerifProbe', 'ident': int(j), 'period': 1 if rng.random() < 0.7 else 2, 'nlist': int(rng.integers(1, 3)),
             'style': sp.pick(rng, ['rebind', 'inplace', 'shift']), 'outputs': ['out', 'out_list']}
        if edges[j]:
            o['inputs'] = {k: ([spec_str(names, s) for s in v] if isinstance(v, list) else spec_str(names, v)) for k, v in edges[j].items()}
        objs[names[j]] = o
    # only outputs that are published at least once have a file to be read back
    from harness.probes import verif_probe as vp
    vp.clear()
    sp.run_simul({**params, **objs}, 'pre.yml')
    runs = {}
    for ev in vp.LOG:
        if ev[0] == 'run':
            runs[ev[1]] = runs.get(ev[1], 0) + 1
    pub = [k for k in names if runs.get(k, 0) >= objs[k]['period']]
    stores = {}
    assert pub, 'node 0 has no inputs and must have published'
    for s in range(nstores):
        pick = [str(x) for x in rng.permutation(pub)[:int(rng.integers(1, len(pub) + 1))]]
        stores[f'store{s}'] = {'class': 'DataStore', 'store_dir': f'st{c.i}_{c.precision}_{s}', 'create_tn': bool(rng.random() < 0.3),
                               'inputs': {'input_list': [f'v{s}{i}-{x}.out' for i, x in enumerate(pick)]}}
        if rng.random() < 0.5:
            stores[f'store{s}']['data_format'] = sp.pick(rng, ['fits', 'pickle'])
    both = {**objs, **stores}
    ks = list(both)
    rng.shuffle(ks)
    params.update({k: both[k] for k in ks})
    return params, names, stores


def dirs(stores):
    import os
    out = {}
    for nm, st in stores.items():
        d = st['store_dir']
        if not os.path.isdir(d):
            out[nm] = None
            continue
        if st['create_tn']:
            sub = sorted(os.listdir(d))
            d = os.path.join(d, sub[-1])
        out[nm] = d
    return out


@CHECK.section('graphs', quick=160, thorough=2500)
def graphs(c):
    import os
    import yaml
    from harness import sp
    from harness.probes import verif_probe as vp
    rng = c.rng
    params, names, stores = make(c, rng, sp, int(rng.integers(1, 3)))
    c.describe(params={k: {a: b for a, b in v.items() if a in ('inputs', 'period', 'style', 'data_format')} for k, v in params.items() if k != 'main'})
    vp.clear()
    sp.run_simul(params)
    want = trace(vp)
    for nm, d in dirs(stores).items():
        ext = '.' + stores[nm].get('data_format', 'fits')
        files = [x.split('-')[0] + ext for x in stores[nm]['inputs']['input_list']]
        if not c.check(d is not None and all(os.path.exists(os.path.join(d, f)) for f in files), 'graphs:not-stored', f'{files} in {d}'):
            return
        rp = os.path.join(d, 'replay_params.yml')
        if not c.check(os.path.exists(rp), 'graphs:no-replay-file', f'{os.listdir(d)}'):
            continue
        R = yaml.safe_load(open(rp))
        stored = {x.split('-')[1].split('.')[0] for x in stores[nm]['inputs']['input_list']}
        keep = [k for k in names if k not in stored]
        c.check(all(k in R for k in keep), 'graphs:object-lost', f'{[k for k in keep if k not in R]} are not in the replay')
        c.check(nm not in R, 'graphs:store-left', 'the replay would overwrite the data it reads')
        # other stores must not overwrite the original data either
        for k, v in R.items():
            if v['class'] == 'DataStore':
                v['store_dir'] = v['store_dir'] + '_again'
        vp.clear()
        sp.run_simul(R, f'replay_{nm}.yml')
        got = trace(vp)
        rest = [k for k in names if k in R]
        for k in rest:
            a, b = want.get(k, []), got.get(k, [])
            if not c.check(a == b, 'graphs:different', f'{k}: {next(((x, y) for x, y in zip(a + [None], b + [None]) if x != y), None)}', store=nm,
                           stored=sorted(stored)):
                return
        c.saw('replays')
        c.saw('objects compared', len(rest))
        c.saw('delayed reads of stored data', sum(1 for k in rest for x in yaml.safe_dump(R[k].get('inputs', {})).split() if 'data_source_delayed' in x))
        c.saw('objects replaced by stored data', len([k for k in stored if k not in R]))


@CHECK.section('targeted', quick=80, thorough=1200)
def targeted(c):
    import copy
    import os
    from harness import sp
    from harness.probes import verif_probe as vp
    from specula.simul import Simul
    rng = c.rng
    params, names, stores = make(c, rng, sp, 1)
    (sname, st), = stores.items()
    c.describe(params={k: {a: b for a, b in v.items() if a in ('inputs', 'period', 'style', 'data_format')} for k, v in params.items() if k != 'main'})
    vp.clear()
    sp.run_simul(params)
    want = trace(vp)
    d = dirs(stores)[sname]
    ext = '.' + st.get('data_format', 'fits')
    files = [x.split('-')[0] + ext for x in st['inputs']['input_list']]
    if not c.check(d is not None and all(os.path.exists(os.path.join(d, f)) for f in files), 'targeted:not-stored', f'{files} in {d}'):
        return
    import yaml
    orig = yaml.safe_load(open(os.path.join(d, 'params.yml'))) if rng.random() < 0.5 else copy.deepcopy(params)
    before = copy.deepcopy(orig)
    targets = [str(x) for x in rng.permutation(names)[:int(rng.integers(1, 3))]]
    R = Simul('unused').build_targeted_replay(orig, *targets, set_store_dir=d)
    c.check(orig == before, 'targeted:original-modified')
    c.check(all(t in R for t in targets), 'targeted:target-lost')
    vp.clear()
    sp.run_simul(R, 'targeted.yml')
    got = trace(vp)
    for k in [k for k in names if k in R]:
        a, b = want.get(k, []), got.get(k, [])
        if not c.check(a == b, 'targeted:different', f'{k}: {next(((x, y) for x, y in zip(a + [None], b + [None]) if x != y), None)}', targets=targets):
            return
        c.saw('objects compared')
    c.saw('replays')


@CHECK.section('systems', quick=24, thorough=260)
def systems(c):
    import os
    import yaml
    from harness import sp, zoo
    from harness.monitor import run_monitored
    rng = c.rng
    nsteps = int(rng.integers(4, 8))
    params, info = zoo.system(rng, nsteps=nsteps, prec=c.precision)
    ex = zoo.observers(rng, params, info, npick=int(rng.integers(0, 4)), store=False)
    ex.pop('o_buf', None)
    params.update(ex)
    outs = [str(o) for o in rng.permutation(sorted(o for o in info['outs'] if o != 'dm.out_layer'))[:int(rng.integers(1, 4))]]
    d = f'sys{c.i}_{c.precision}'
    params['store'] = {'class': 'DataStore', 'store_dir': d, 'create_tn': False, 'data_format': sp.pick(rng, ['fits', 'pickle']),
                       'inputs': {'input_list': [f'{info["outs"][o]}-{o}' for o in outs]}}
    c.describe(atmo=info['atmo'], wfs=info['wfs'], ctl=info['ctl'], ndm=info['ndm'], stored=outs, extra=sorted(ex))
    s, mon = run_monitored(params, isolation=False)
    R = yaml.safe_load(open(os.path.join(d, 'replay_params.yml')))
    s2, mon2 = run_monitored(R, 'replay.yml', isolation=False)
    n = 0
    for k in mon2.log:
        if k.startswith('data_source'):
            continue
        a, b = mon.log.get(k), mon2.log[k]
        if not c.check(a == b, f'systems:different', f'{k} ({params[k]["class"]}): {next(((x, y) for x, y in zip((a or []) + [None], b + [None]) if x != y), None)}'):
            return
        n += len(b)
    gone = [k for k in mon.log if k not in mon2.log and k not in {o.split('.')[0] for o in outs} and k != 'store']
    c.check(not gone, 'systems:not-run', f'{gone} did not run in the replay')
    c.saw('object steps compared', n)
    c.saw('systems replayed')
