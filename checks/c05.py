"""C05: distributing a simulation over ranks does not change its results."""
from harness.vf import CheckDef
CHECK = CheckDef('C05', rule=(
    'Every case runs one configuration in a single process and again on 2-4 forked ranks that talk through a message fabric with the '
    'mpi4py interface (random delivery delays, per-channel ordering, message ledger, deadlock detection). graphs: random object graphs '
    '(same-step and ":-1" edges, input lists, list outputs, slow producers, several publication styles); every recording object must see the same '
    'inputs in the same steps. systems: complete random adaptive-optics systems with observers; published outputs of every object compared bit by bit. '
    'stores: telemetry stored by a rank that does not produce it. Distinct by configuration, rank assignment and delivery order.'),
    assumptions=['the message fabric replaces mpi4py, which is not installed; buffered sends never run out of buffer space',
                 'all ranks see the same file system and parameter files'])
from checks.c01 import rand_graph, spec_str


def rank_graph(rank, comm, precision, fname):
    from harness.probes import verif_probe as vp
    from specula.simul import Simul
    vp.clear()
    Simul(fname, speed_report=False).run()
    return list(vp.LOG)


def rank_system(rank, comm, precision, fname):
    from harness import monitor
    s, mon = monitor.run_monitored([fname], isolation=False)
    return mon.log


def judge(c, sec, r, size):
    """the fabric's own verdict"""
    if r['died']:
        k, (msg, tb) = sorted(r['died'].items())[0]
        if '/specula/' not in tb and 'FabricError' not in msg:
            raise RuntimeError(f'harness failure in rank {k}: {msg}\n{tb}')
        e = r['errors'][0] if r['errors'] else ('rank-failed', '')
        c.violation(f'{sec}:{e[0]}', f'rank {k} failed: {msg} {e[1]}\n{tb[-900:]}')
        return False
    for e in r['errors']:
        c.violation(f'{sec}:{e[0]}', e[1])
        return False
    if not c.check(not r['pending'], f'{sec}:pending', f'messages never received (dest, source, tag): {r["pending"]}'):
        return False
    c.check(r['sent'] == r['received'], f'{sec}:ledger', f'{r["sent"]} sent, {r["received"]} received')
    c.saw('messages', r['sent'])
    c.saw('ranks', size)
    return True


def seen_events(log):
    out = {}
    for ev in log:
        if ev[0] in ('setup', 'final'):
            out.setdefault(ev[1], []).append(ev[:2])
        elif ev[0] in ('prepare', 'run', 'post'):
            out.setdefault(ev[1], []).append(ev[:4])
    return out


@CHECK.section('graphs', quick=120, thorough=2000, timeout=600)
def graphs(c):
    from harness import sp, mpi
    from harness.probes import verif_probe as vp
    rng = c.rng
    n = int(rng.integers(2, 9))
    edges = rand_graph(rng, n)
    edges[0] = {}
    for j in range(1, n):
        if edges[j] and all(s[2] for v in edges[j].values() for s in (v if isinstance(v, list) else [v])) and rng.random() < 0.8:
            edges[j]['b' if 'a' in edges[j] else 'a'] = (int(rng.integers(0, j)), 'out', 0)
    names = [f'{sp.pick(rng, "abcdefgh")}{sp.pick(rng, ["x", "_", "node"])}{i}' for i in range(n)]
    size = int(rng.integers(2, 5))
    params = {'main': sp.main_params(int(rng.integers(2, 6)))}
    objs = {}
    for j in rng.permutation(n):
        o = {'class': 'VerifProbe', 'ident': int(j), 'period': 1 if rng.random() < 0.7 else 2, 'nlist': int(rng.integers(1, 4)),
             'style': sp.pick(rng, ['rebind', 'inplace', 'shift']), 'outputs': ['out', 'out_list']}
        if edges[j]:
            o['inputs'] = {k: ([spec_str(names, s) for s in v] if isinstance(v, list) else spec_str(names, v)) for k, v in edges[j].items()}
        objs[names[j]] = o
    vp.clear()
    sp.run_simul({**params, **objs}, f's{c.i}.yml')
    want = seen_events(vp.LOG)
    ranks = {}
    for k in objs:
        ranks[k] = int(rng.integers(size))
        if ranks[k] or rng.random() < 0.5:
            objs[k]['target_rank'] = ranks[k]
    c.describe(ranks=ranks, objs={k: {a: b for a, b in v.items() if a in ('inputs', 'period', 'style', 'nlist')} for k, v in objs.items()})
    fn = sp.write_yml({**params, **objs}, f'm{c.i}.yml')
    r = mpi.run(rank_graph, size, dict(precision=c.precision, fname=fn), rng, maxdelay=sp.pick(rng, [0.0, 0.001, 0.004]), timeout=60)
    if not judge(c, 'graphs', r, size):
        return
    got = {}
    for rk, log in r['done'].items():
        for nm, evs in seen_events(log).items():
            c.check(ranks[nm] == rk, 'graphs:wrong-rank', f'{nm} of rank {ranks[nm]} ran on rank {rk}')
            got.setdefault(nm, []).extend(evs)
    for nm in names:
        a, b = want.get(nm, []), got.get(nm, [])
        c.saw('events compared', len(a))
        if not c.check(a == b, 'graphs:different', f'{nm} on rank {ranks[nm]}: {next(((x, y) for x, y in zip(a + [None], b + [None]) if x != y), None)}'):
            return
    c.saw('delivery orders')


@CHECK.section('systems', quick=24, thorough=300, timeout=700)
def systems(c):
    from harness import sp, mpi, zoo, monitor
    rng = c.rng
    params, info = zoo.system(rng, nsteps=int(rng.integers(3, 6)), root=f'cal{c.i}_{c.precision}')
    for k in ('wfs', 'slopec'):
        if k in params and 'in_ef' in params[k]['inputs'] and rng.random() < 0.6:
            params['relay'] = {'class': sp.pick(rng, ['ElectricFieldReflection', 'PhaseFlattening', 'ElectricFieldCombinator']), 'outputs': ['out_ef'],
                               'inputs': {'in_ef': info['ef0']}}
            if params['relay']['class'] == 'ElectricFieldCombinator':
                params['relay']['inputs'] = {'in_ef1': info['ef0'], 'in_ef2': f"prop.out_{info['srcs'][-1]}_ef"}
            params[k]['inputs']['in_ef'] = 'relay.out_ef'
            break
    params.update(zoo.observers(rng, params, info, store=rng.random() < 0.5))
    if 'store' in params:
        params['store'].update(store_dir=f'one{c.i}_{c.precision}', create_tn=False)
    size = int(rng.integers(2, 5))
    fn0 = sp.write_yml(params, f's{c.i}.yml')
    s, mon = monitor.run_monitored([fn0], isolation=False)
    from specula.base_processing_obj import BaseProcessingObj
    procs = [k for k, o in s.objs.items() if isinstance(o, BaseProcessingObj)]
    ranks = {k: int(rng.integers(size)) if rng.random() < 0.7 else 0 for k in procs}
    for k in procs:
        if ranks[k]:
            params[k]['target_rank'] = ranks[k]
    if 'store' in params:
        params['store']['store_dir'] = f'many{c.i}_{c.precision}'
    c.describe(info={k: v for k, v in info.items() if k != 'outs'}, ranks=ranks, observers=[k for k in params if k.startswith('o_')])
    fn = sp.write_yml(params, f'm{c.i}.yml')
    r = mpi.run(rank_system, size, dict(precision=c.precision, fname=fn), rng, maxdelay=sp.pick(rng, [0.0, 0.002]), timeout=200)
    if not judge(c, 'systems', r, size):
        return
    got = {}
    for rk, log in r['done'].items():
        got.update(log)
    for k in procs:
        a, b = mon.log.get(k, []), got.get(k, [])
        c.saw('object steps compared', len(a))
        if a != b:
            bad = next(((x, y) for x, y in zip(a + [None], b + [None]) if x != y), None)
            x, y = bad
            what = 'number of runs' if x is None or y is None else ('time' if x[0] != y[0] else str([o for o in x[1] if x[1][o] != y[1].get(o)]))
            c.violation(f'systems:different', f'{k} ({params[k]["class"]}) on rank {ranks[k]} differs from the single-process run: {what} at t={None if x is None else x[0]}',
                        inputs=params[k].get('inputs'), ranks=ranks)
            return
    c.saw('delivery orders')
    if 'store' in params:
        one, many = telemetry(f'one{c.i}_{c.precision}'), telemetry(f'many{c.i}_{c.precision}')
        c.check(sorted(one) == sorted(many), 'systems:stored-files', f'{sorted(one)} stored in one process, {sorted(many)} on rank {ranks["store"]}')
        for k in one:
            c.saw('stored files compared')
            c.check(one[k] == many.get(k), 'systems:stored-data', f'{k} stored by rank {ranks["store"]} differs')


def telemetry(d):
    import os
    import pickle
    import numpy as np
    from astropy.io import fits
    out = {}
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if f.endswith('.fits'):
            with fits.open(p) as h:
                out[f] = [(np.shape(x.data), np.asarray(x.data).tobytes()) for x in h]
                hdr = h[0].header
        elif f.endswith('.pickle'):
            q = pickle.load(open(p, 'rb'))
            out[f] = [(np.shape(q[k]), np.asarray(q[k]).tobytes()) for k in ('data', 'times')]
            hdr = q['hdr']
        else:
            continue
        out[f].append([(k, hdr[k]) for k in hdr if k not in ('COMMENT', 'HISTORY')])
    return out


def rank_payload(rank, comm, precision, fname):
    from harness.probes import verif_payload as vp
    from specula.simul import Simul
    vp.clear()
    Simul(fname, speed_report=False).run()
    return list(vp.LOG)


@CHECK.section('payloads', quick=90, thorough=1500, timeout=600)
def payloads(c):
    from harness import sp, mpi
    from harness.probes import verif_payload as vp
    rng = c.rng
    size = int(rng.integers(2, 4))
    npd, ne = int(rng.integers(2, 7)), int(rng.integers(1, 4))
    objs = {}
    for i in range(npd):
        o = {'class': 'VerifPayload', 'kind': vp.KINDS[(c.i + i * 5) % len(vp.KINDS)] if rng.random() < 0.5 else sp.pick(rng, vp.KINDS),
             'seed': int(rng.integers(1000)), 'period': 1 if rng.random() < 0.7 else 2, 'outputs': ['out']}
        objs[f'p{i}'] = o
    for i in range(ne):
        ins = {}
        dly = rng.random() < 0.4        # delayed inputs only from producers placed later; they get a driver from this object
        if rng.random() < 0.8:
            ins['a'] = f'p{int(rng.integers(npd))}.out'
        if rng.random() < 0.5:
            ins['b'] = f'p{int(rng.integers(npd))}.out'
        if rng.random() < 0.6 or not ins:
            ins['lst'] = [f'p{int(rng.integers(npd))}.out' for _ in range(int(rng.integers(1, 4)))]
        objs[f'e{i}'] = {'class': 'VerifEater', 'inputs': ins, 'outputs': ['out']}
    if rng.random() < 0.6:
        # a loop: an eater reads a producer's previous value, the producer is driven by the eater
        k = sp.pick(rng, vp.KINDS)
        objs['clk'] = {'class': 'VerifPayload', 'kind': 'array', 'seed': 1, 'outputs': ['out']}
        objs['ed'] = {'class': 'VerifEater', 'inputs': {'a': 'pd.out:-1', 'b': 'clk.out'}, 'outputs': ['out']}
        objs['pd'] = {'class': 'VerifPayload', 'kind': k, 'seed': 5, 'inputs': {'drv': 'ed.out'}, 'outputs': ['out']}
    ks = list(objs)
    rng.shuffle(ks)
    params = {'main': sp.main_params(int(rng.integers(2, 7))), **{k: objs[k] for k in ks}}
    ranks = {}
    vp.clear()
    sp.run_simul(params, f's{c.i}.yml')
    want = {}
    for ev in vp.LOG:
        want.setdefault(ev[0], []).append(ev)
    for k in objs:
        ranks[k] = int(rng.integers(size))
        if ranks[k]:
            params[k]['target_rank'] = ranks[k]
    c.describe(objs={k: (v.get('kind'), v.get('inputs'), v.get('period'), ranks[k]) for k, v in objs.items()})
    fn = sp.write_yml(params, f'm{c.i}.yml')
    r = mpi.run(rank_payload, size, dict(precision=c.precision, fname=fn), rng, maxdelay=sp.pick(rng, [0.0, 0.002]), timeout=60)
    if not judge(c, 'payloads', r, size):
        return
    got = {}
    for log in r['done'].values():
        for ev in log:
            got.setdefault(ev[0], []).append(ev)
    for k in want:
        a, b = want[k], got.get(k, [])
        c.saw('payloads compared', sum(len(x) for ev in a for x in ev[2].values()))
        if not c.check(a == b, 'payloads:different', f'{k}: {next(((x, y) for x, y in zip(a + [None], b + [None]) if x != y), None)}'):
            return


def collisions(n, rng, lim=3000):
    """pairs of producer names whose connection to e.<input> would get equal or adjacent numbers under the usual naming hash"""
    import hashlib
    seen, out = {}, []
    for k in range(lim):
        nm, inp = f'p{int(rng.integers(10 ** 6))}', 'ab'[k % 2]
        t = int(hashlib.sha256(f'{nm}%e%out%{inp}'.encode()).hexdigest(), 16) % 10 ** 6
        for d in (0, 1, -1):
            o = seen.get(t + d)
            if o and o[0] != nm and o[1] != inp:
                out.append((o, (nm, inp)))
                if len(out) == n:
                    return out
        seen[t] = (nm, inp)
    return out


@CHECK.section('tags', quick=12, thorough=60, timeout=120, precisions=(0,))
def tags(c):
    """connections of the same pair of ranks whose names hash to the same or neighbouring tags"""
    from harness import sp, mpi
    from harness.probes import verif_payload as vp
    rng = c.rng
    prs = collisions(8, rng)
    (n1, i1), (n2, i2) = prs[c.i % len(prs)]
    objs = {n1: {'class': 'VerifPayload', 'kind': 'array', 'seed': 3, 'outputs': ['out']},
            n2: {'class': 'VerifPayload', 'kind': sp.pick(rng, ['scalar', 'array', 'ef']), 'seed': 4, 'period': int(rng.integers(1, 3)), 'outputs': ['out']},
            'e': {'class': 'VerifEater', 'inputs': {i1: f'{n1}.out', i2: f'{n2}.out'}, 'outputs': ['out']}}
    ks = list(objs)
    rng.shuffle(ks)
    params = {'main': sp.main_params(4), **{k: objs[k] for k in ks}}
    c.describe(names=[n1, n2], inputs=objs['e']['inputs'], listing=ks)
    vp.clear()
    sp.run_simul(params, f's{c.i}.yml')
    want = list(vp.LOG)
    params['e']['target_rank'] = 1
    fn = sp.write_yml(params, f'm{c.i}.yml')
    r = mpi.run(rank_payload, 2, dict(precision=c.precision, fname=fn), rng, maxdelay=0.001, timeout=60)
    if judge(c, 'tags', r, 2):
        c.check(r['done'][1] == want, 'tags:different', f'{next(((x, y) for x, y in zip(want + [None], r["done"][1] + [None]) if x != y), None)}')
