"""C01: trigger order and ':-1' semantics on random graphs run by the real engine."""
from harness.vf import CheckDef
CHECK = CheckDef('C01', rule=(
    'Graph cases: random object graphs (2-9 probe objects with unique output values, same-step and ":-1" edges, input lists, '
    'output lists, slow producers, several publication styles) listed in several random orders, run by the real Simul/LoopControl; '
    'an offline oracle recomputes from the edge list alone which value every object must see in each phase of each step. '
    'Real-producer cases: SPECULA objects observed through a same-step and a ":-1" monitor. Non-trivial: at least one input '
    'observation checked; distinct by graph and listing order.'),
    assumptions=['graphs in which a ":-1" input has to be read after its producer has already run (refused by design) are not generated'])


def rand_graph(rng, n):
    """hidden order 0..n-1; same-step edges forward, delayed edges backward (consumer earlier)."""
    edges = {}      # consumer -> {input: spec or [specs]}, spec=(producer, key, delay)
    for j in range(n):
        ins = {}
        slots = [s for s in ('a', 'b', 'c') if rng.random() < 0.45]
        cand = [(i, 0) for i in range(j)] + [(i, -1) for i in range(j + 1, n)]
        for s in slots:
            if cand:
                p, d = cand[int(rng.integers(len(cand)))]
                ins[s] = (p, 'out', d)
        if cand and rng.random() < 0.3:
            k = int(rng.integers(1, min(4, len(cand)) + 1))
            pl = [cand[int(i)] for i in rng.choice(len(cand), k, replace=False)]
            ins['lst'] = [(p, 'out' if rng.random() < 0.6 else 'out_list', d) for p, d in pl]
        # a producer may not be both same-step and delayed input of one object
        edges[j] = ins
    return edges


def spec_str(names, s):
    p, key, d = s
    return f'{names[p]}.{key}' + (':-1' if d else '')


def model(n, edges, period, nlist, nsteps, dt):
    """Expected observations: {(node, k): {input: [(value, gentime)...]}} and run set."""
    cur = [((float(i), 0.0, -1.0), -1) for i in range(n)]
    cnt = [0] * n
    exp, runs = {}, []
    for k in range(nsteps):
        t = k * dt
        prev = list(cur)
        for j in range(n):          # hidden order is a valid order
            ins = edges[j]
            fresh, seen = False, {}
            for name, sp_ in ins.items():
                lst = sp_ if isinstance(sp_, list) else [sp_]
                seen[name] = []
                for (p, key, d) in lst:
                    v = prev[p] if d else cur[p]
                    m = nlist[p] if key == 'out_list' else 1
                    seen[name] += [v] * m
                    if not d and v[1] == t and m:
                        fresh = True
            none_set = not any(seen.values())
            if none_set or fresh:
                cnt[j] += 1
                exp[(j, k)] = seen
                runs.append((j, k))
                if cnt[j] % period[j] == 0:
                    cur[j] = ((float(j), float(cnt[j]), float(t)), t)
    return exp, runs


@CHECK.section('graphs', quick=220, thorough=4000)
def graphs(c):
    import numpy as np
    from harness import sp
    from harness.probes import verif_probe as vp
    rng = c.rng
    n = int(rng.integers(2, 10))
    edges = rand_graph(rng, n)
    period = [1 if rng.random() < 0.7 else int(rng.integers(2, 4)) for _ in range(n)]
    nlist = [int(rng.integers(1, 4)) for _ in range(n)]
    style = [sp.pick(rng, ['rebind', 'inplace', 'shift']) for _ in range(n)]
    names = [f'{sp.pick(rng, "abcdefgh")}{sp.pick(rng, ["x", "_", "node"])}{i}' for i in range(n)]
    nsteps = int(rng.integers(3, 7))
    c.describe(n=n, edges={names[j]: {k: ([spec_str(names, s) for s in v] if isinstance(v, list) else spec_str(names, v))
                                      for k, v in e.items()} for j, e in edges.items()}, period=period, style=style)
    exp, runs = model(n, edges, period, nlist, nsteps, 1_000_000)
    nperm = 2
    for perm_i in range(nperm):
        perm = rng.permutation(n)
        params = {'main': sp.main_params(nsteps)}
        for j in perm:
            pars = {'class': 'VerifProbe', 'ident': int(j), 'period': period[j], 'style': style[j], 'nlist': nlist[j], 'outputs': ['out', 'out_list']}
            if edges[j]:
                pars['inputs'] = {k: ([spec_str(names, s) for s in v] if isinstance(v, list) else spec_str(names, v))
                                  for k, v in edges[j].items()}
            params[names[j]] = pars
        vp.clear()
        s = sp.run_simul(params, f'p{perm_i}.yml')
        listing = [names[j] for j in perm]
        ran = {}
        ids = {nm: j for j, nm in enumerate(names)}
        order = []
        for ev in vp.LOG:
            if ev[0] not in ('prepare', 'run', 'post'):
                continue
            j, k = ids[ev[1]], ev[2] // 1_000_000
            if ev[0] == 'run':
                ran[(j, k)] = ran.get((j, k), 0) + 1
                order.append((j, k))
            seen = {a: b for a, b in ev[3].items() if b}
            want = {a: b for a, b in exp.get((j, k), {}).items() if b}
            if (j, k) in exp:
                # a same-step input must be the current value, a delayed one the previous step's, in every phase
                ok = c.check(seen == want, 'graphs:wrong-value-seen',
                             f'{ev[1]} at step {k} ({ev[0]}) saw {seen}, expected {want}', listing=listing)
                c.saw('input_observations', sum(len(v) for v in want.values()))
                c.saw('delayed_observations', sum(1 for a, v in edges[j].items() for s_ in (v if isinstance(v, list) else [v]) if s_[2]))
                if not ok:
                    return
        bad = [(names[j], k, m) for (j, k), m in ran.items() if m != 1]
        if not c.check(not bad, 'graphs:ran-more-than-once', f'objects ran more than once in a step: {bad}', listing=listing):
            return
        miss = [(names[j], k) for (j, k) in runs if (j, k) not in ran]
        extra = [(names[j], k) for (j, k) in ran if (j, k) not in exp]
        if not c.check(not miss and not extra, 'graphs:wrong-steps', f'not run when due: {miss[:5]}; run when not due: {extra[:5]}', listing=listing):
            return
        pos = {x: i for i, x in enumerate(order)}
        for (j, k) in order:
            for v in edges[j].values():
                for (p, key, d) in (v if isinstance(v, list) else [v]):
                    if not d and (p, k) in pos:
                        if not c.check(pos[(p, k)] < pos[(j, k)], 'graphs:consumer-before-producer',
                                       f'{names[j]} ran before its producer {names[p]} at step {k}', listing=listing):
                            return
        c.saw('simulations')
        c.saw('object_runs', len(order))


@CHECK.section('cycles', quick=40, thorough=400)
def cycles(c):
    """a same-step cycle is refused, or its members are left out; they never run"""
    from harness import sp
    from harness.probes import verif_probe as vp
    rng = c.rng
    n = int(rng.integers(2, 7))
    m = int(rng.integers(2, n + 1)) if n > 2 else 2
    cyc = [int(x) for x in rng.choice(n, m, replace=False)]
    params = {'main': sp.main_params(3)}
    ins = {j: {} for j in range(n)}
    for a, b in zip(cyc, cyc[1:] + cyc[:1]):
        ins[b]['a'] = f'o{a}.out'
    for j in range(n):
        if j not in cyc and rng.random() < 0.5:
            ins[j]['b'] = f'o{int(sp.pick(rng, cyc))}.out' if rng.random() < 0.4 else f'o{j}.out:-1' if rng.random() < 0.1 else None
            if ins[j]['b'] is None:
                del ins[j]['b']
    for j in rng.permutation(n):
        params[f'o{j}'] = {'class': 'VerifProbe', 'ident': int(j), 'outputs': ['out']}
        if ins[j]:
            params[f'o{j}']['inputs'] = ins[j]
    c.describe(n=n, cycle=cyc, inputs=ins, order=list(params))
    vp.clear()
    refused = False
    try:
        sp.run_simul(params)
    except ValueError:
        refused = True
    ran = {ev[1] for ev in vp.LOG if ev[0] == 'run'} & {f'o{j}' for j in cyc}
    c.saw('refused' if refused else 'left_out')
    c.check(not ran, 'cycles:cycle-was-run', f'objects in a same-step cycle were run: {sorted(ran)}')


REAL = ['integrator0', 'integrator1', 'integrator2', 'integratorf', 'lowpass', 'operation', 'linear', 'slicer', 'wave', 'mvm', 'dm', 'window', 'concat',
        'ssr', 'random', 'buffer']


@CHECK.section('real_producers', quick=80, thorough=1000, precisions=(0,))
def real_producers(c):
    """the ':-1' view of a real object's output is its same-step view one step earlier"""
    import numpy as np
    from harness import sp
    from harness.probes import verif_probe as vp
    rng = c.rng
    kind = REAL[c.i % len(REAL)]
    nm = int(rng.integers(2, 6))
    nsteps = int(rng.integers(5, 10))
    objs = {'gen': {'class': 'RandomGenerator', 'amp': [1.0] * nm, 'seed': int(rng.integers(1, 1e6)), 'outputs': ['output']},
            'gen2': {'class': 'WaveGenerator', 'wave_type': 'SIN', 'amp': [1.0] * nm, 'freq': 37.0, 'offset': 0.3, 'outputs': ['output']}}
    key = 'out_comm'
    I = lambda **k: k
    if kind.startswith('integrator'):
        d = {'0': 0, '1': 1, '2': 2, 'f': 1.4}[kind[-1]]
        X = {'class': 'Integrator', 'simul_params_ref': 'main', 'int_gain': [0.5], 'n_modes': [nm], 'delay': d, 'inputs': {'delta_comm': 'gen.output'}}
    elif kind == 'lowpass':
        X = {'class': 'LowPassFilter', 'simul_params_ref': 'main', 'cutoff_freq': [100.0] * nm, 'n_ord': 1, 'delay': 1, 'inputs': {'delta_comm': 'gen.output'}}
    elif kind == 'ssr':
        objs['fd'] = {'class': 'SsrFilterData', 'A': [0.9] * nm, 'B': [0.3] * nm, 'C': [1.0] * nm, 'D': [0.0] * nm}
        X = {'class': 'SsrFilter', 'simul_params_ref': 'main', 'ssr_filter_data_ref': 'fd', 'delay': 1, 'inputs': {'delta_comm': 'gen.output'}}
    elif kind in ('operation', 'concat'):
        X = {'class': 'BaseOperation', 'inputs': {'in_value1': 'gen.output', 'in_value2': 'gen2.output'}}
        X.update({'concat': True} if kind == 'concat' else {'sum': True})
        if kind == 'concat':
            X.update(value2_remap=None) if False else None
        key = 'out_value'
    elif kind == 'linear':
        X = {'class': 'BaseOperation', 'constant_mul': 2.5, 'inputs': {'in_value1': 'gen.output'}}
        key = 'out_value'
    elif kind == 'slicer':
        X = {'class': 'BaseSlicer', 'slice_args': [0, nm - 1], 'inputs': {'in_value': 'gen.output'}}
        key = 'out_value'
    elif kind == 'wave':
        X = {'class': 'WaveGenerator', 'wave_type': 'SIN', 'amp': [1.0] * nm, 'freq': 53.0}
        key = 'output'
    elif kind == 'random':
        X = {'class': 'RandomGenerator', 'amp': [1.0] * nm, 'seed': 5}
        key = 'output'
    elif kind == 'mvm':
        objs['rec'] = {'class': 'Recmat', 'recmat': (np.arange(nm * nm).reshape(nm, nm) / 7.0).tolist()}
        X = {'class': 'MVM', 'recmat_ref': 'rec', 'inputs': {'in_vector': 'gen.output'}}
        key = 'out_vector'
    elif kind == 'dm':
        X = {'class': 'DM', 'simul_params_ref': 'main', 'height': 0, 'type_str': 'zernike', 'nmodes': nm, 'inputs': {'in_command': 'gen.output'}}
        key = 'out_layer'
    elif kind == 'window':
        X = {'class': 'WindowedIntegration', 'simul_params_ref': 'main', 'n_elem': nm, 'dt': 0.002, 'inputs': {'input': 'gen.output'}}
        key = 'output'
    elif kind == 'buffer':
        X = None
    if X is None:
        X = {'class': 'Integrator', 'simul_params_ref': 'main', 'int_gain': [0.4], 'ff': [0.9], 'n_modes': [nm], 'delay': 3, 'inputs': {'delta_comm': 'gen.output'}}
        key = 'out_comm_no_delay'
    X['outputs'] = [key]
    objs['xobj'] = X
    objs['now'] = {'class': 'VerifSniffer', 'inputs': {'drv': 'gen.output', 'x': [f'xobj.{key}']}}
    objs['prev'] = {'class': 'VerifSniffer', 'inputs': {'drv': 'gen.output', 'x': [f'xobj.{key}:-1']}}
    if rng.random() < 0.5:    # the monitor of the previous value may need no same-step input at all
        objs['tick'] = {'class': 'WaveGenerator', 'wave_type': 'SIN', 'amp': 1.0, 'freq': 1.0, 'outputs': ['output']}
        objs['prev']['inputs']['drv'] = 'tick.output'
    names = list(objs)
    perm = [names[i] for i in rng.permutation(len(names))]
    params = {'main': sp.main_params(nsteps)}
    for nme in perm:
        params[nme] = objs[nme]
    c.describe(kind=kind, nm=nm, listing=perm, nsteps=nsteps)
    vp.clear()
    sp.run_simul(params)
    now = {ev[2]: ev[3] for ev in vp.LOG if ev[0] == 'sniff' and ev[1] == 'now'}
    prev = {ev[2]: ev[3] for ev in vp.LOG if ev[0] == 'sniff' and ev[1] == 'prev'}
    ts = sorted(now)
    if not c.check(len(ts) == nsteps and sorted(prev) == ts, 'real:monitor-steps', f'{len(ts)} {len(prev)} of {nsteps}'):
        return
    for a, b in zip(ts, ts[1:]):
        for x, y in zip(now[a], prev[b]):
            for f in x:
                if not c.eq(np.asarray(y.get(f), dtype=object if x[f] is None else None), np.asarray(x[f], dtype=object if x[f] is None else None),
                            'real:delayed-view-differs', f'{kind}.{key} field {f}: ":-1" at t={b} gives {y.get(f)}, end of previous step was {x[f]}', listing=perm):
                    return
        c.saw('delayed_real_observations')
