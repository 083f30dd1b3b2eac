"""C06: composition of configurations and refusal of mistakes."""
from harness.vf import CheckDef
CHECK = CheckDef('C06', rule=(
    'compose: a random target configuration (recording objects with scalar, list and dictionary parameters, references, list and '
    'dictionary references, restored objects, data files, tags, random wiring) is first written by hand as one file and then taken '
    'apart into several files using additions, overrides (global and per index, in any listing order), per-index objects, removals, '
    'decoys for other indices and override strings; both are run by the real Simul and every object must have received the same '
    'arguments and seen the same inputs at the same times. mistakes: one mistake is planted in a valid configuration and the run must '
    'be refused before any object is stepped. recorded: the parameters saved by a data store are run again. Distinct by configuration.'),
    assumptions=['a file does not override an object it defines later, and an overridden dictionary parameter replaces the old one'])


def write_calib(rng):
    """data files and objects the configurations refer to (in the scratch directory of the job)"""
    import os
    import numpy as np
    from astropy.io import fits
    from specula.data_objects.slopes import Slopes
    for d in ('data', 'slopenulls', 'slopes'):
        os.makedirs(d, exist_ok=True)
    for i in range(3):
        if not os.path.exists(f'data/arr{i}.fits'):
            fits.writeto(f'data/arr{i}.fits', np.arange(4.0) * (i + 1))
            for d, off in (('slopenulls', 0), ('slopes', 100)):
                s = Slopes(length=4, target_device_idx=-1)
                s.slopes[:] = np.arange(4) + 10 * i + off
                s.save(f'{d}/sn{i}.fits', overwrite=True)


NAMES = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta', 'iota', 'kappa', 'dm', 'wfs', 'a_b', 'x2', 'n_1a', 'control', 'rec', 'psf']


def rand_target(c, rng, store=False):
    from harness import sp
    write_calib(rng)
    names = list(NAMES)
    rng.shuffle(names)
    n = int(rng.integers(2, 6))
    F = {'main': sp.main_params(int(rng.integers(2, 5)), dt=sp.pick(rng, [0.001, 0.002, 0.0005]))}
    srcs = [names.pop() for _ in range(int(rng.integers(1, 4)))]
    for s in srcs:
        F[s] = {'class': 'Source', 'polar_coordinates': [float(rng.integers(0, 30)), float(rng.integers(0, 360))],
                'magnitude': float(rng.integers(5, 12)), 'wavelengthInNm': float(rng.integers(500, 2000))}
    objs = []
    for i in range(n):
        nm = names.pop()
        o = {'class': 'VerifCfg', 'ident': i + 1, 'outputs': ['out']}
        o['p'] = round(float(rng.normal()), 3)
        if rng.random() < 0.4:
            o['q'] = [int(x) for x in rng.integers(0, 9, int(rng.integers(0, 4)))]
        if rng.random() < 0.4:
            o['d'] = {k: int(rng.integers(9)) for k in ('k1', 'k2')[:int(rng.integers(1, 3))]}
        if rng.random() < 0.3:
            o['period'] = int(rng.integers(1, 3))
        if rng.random() < 0.5:
            o['simul_params_ref'] = 'main'
        if rng.random() < 0.4:
            o['src_ref'] = sp.pick(rng, srcs) if rng.random() < 0.8 else None
        if rng.random() < 0.4:
            o['src_dict_ref'] = [str(x) for x in rng.permutation(srcs)[:int(rng.integers(0, len(srcs) + 1))]] if rng.random() < 0.85 else None
        if rng.random() < 0.4:
            o['src_list_ref'] = [str(x) for x in rng.permutation(srcs)[:int(rng.integers(0, len(srcs) + 1))]] if rng.random() < 0.85 else None
        if rng.random() < 0.3:
            o['arr_data'] = f'arr{int(rng.integers(3))}' if rng.random() < 0.8 else None
        if rng.random() < 0.3:
            o['sn_object'] = f'sn{int(rng.integers(3))}' if rng.random() < 0.8 else None
        if rng.random() < 0.3:
            o['sn_list_object'] = [f'sn{int(rng.integers(3))}' for _ in range(int(rng.integers(0, 3)))]
        if rng.random() < 0.3:
            o['sn_dict_object'] = {k: f'sn{int(rng.integers(3))}' for k in ('u', 'v')[:int(rng.integers(0, 3))]}
        if 'sn_object' not in o and rng.random() < 0.3:
            t = names.pop()
            F[t] = {'class': 'Slopes', 'tag': f'sn{int(rng.integers(3))}'}
            o['sn_ref'] = t
        ins = {}
        for s in ('a', 'b', 'c'):
            if objs and rng.random() < 0.35:
                ins[s] = f'{sp.pick(rng, objs)}.out'
        if objs and rng.random() < 0.35:
            ins['lst'] = [f'{x}.out' for x in rng.permutation(objs)[:int(rng.integers(1, len(objs) + 1))]]
        if ins:
            o['inputs'] = ins
        F[nm] = o
        objs.append(nm)
    # listing order is free
    ks = list(F)
    rng.shuffle(ks)
    return {k: F[k] for k in ks}, objs, srcs, names


def wrong(rng, key, v):
    if key == 'inputs':
        return {}
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, (int, float)):
        return type(v)(v + 1)
    if isinstance(v, list):
        return v[::-1][:1]
    if isinstance(v, dict):
        return {}
    return v


def trace(vp):
    out = {}
    for ev in vp.LOG:
        if ev[0] in ('args', 'prepare', 'run', 'post', 'setup', 'final'):
            out.setdefault(ev[1], []).append(ev)
    return out


def run(vp, files, sp, **kw):
    vp.clear()
    sp.run_simul(files, **kw)
    return trace(vp)


def tidy(x):
    """deep copy, shuffle nothing"""
    import copy
    return copy.deepcopy(x)


@CHECK.section('compose', quick=240, thorough=4000, precisions=(1,))
def compose(c):
    from harness import sp
    from harness.probes import verif_probe as vp
    rng = c.rng
    F, objs, srcs, names = rand_target(c, rng)
    idx = int(rng.integers(0, 13))
    others = [k for k in (0, 1, 2, 10, 12, 3, 22) if k != idx]
    nextra = int(rng.integers(1, 4))
    base, extra = {}, [dict() for _ in range(nextra)]
    where = {}          # object -> file number (0 base)
    cli = {}
    used = set()
    # 1. where each object is defined
    for k, o in F.items():
        f = 0 if k == 'main' or rng.random() < 0.65 else int(rng.integers(1, nextra + 1))
        where[k] = f
        o = tidy(o)
        tgt = base if f == 0 else extra[f - 1]
        # 2. parameters that a later file (or the override string) puts right
        fix = {}
        for p in list(o):
            if p in ('class', 'outputs', 'tag', 'add_modules', 'root_dir', 'pixel_pupil', 'pixel_pitch') or rng.random() > 0.25:
                continue
            right = o[p]
            r = rng.random()
            if r < 0.3 and not p.endswith(('_ref', '_object', '_data')) and (p not in ('total_time', 'time_step', 'inputs') or k == 'main') and p != 'inputs':
                cli[f'{k}.{p}'] = right
                o[p] = wrong(rng, p, right)
                if isinstance(right, dict) and right and rng.random() < 0.5:
                    del cli[f'{k}.{p}']
                    kk = sorted(right)[0]
                    cli[f'{k}.{p}.{kk}'] = right[kk]
                    o[p] = dict(right)
                    o[p][kk] = -5
                used.add('override string')
            elif f < nextra:
                fix[p] = right
                if rng.random() < 0.35 and p not in ('total_time', 'time_step'):
                    del o[p]            # the override adds the parameter
                else:
                    o[p] = wrong(rng, p, right)
        if fix:
            g = int(rng.integers(f + 1, nextra + 1))
            how = rng.random()
            if how < 0.4:
                extra[g - 1][f'{k}_override'] = fix
                used.add('global override')
            elif how < 0.6:
                extra[g - 1][f'{k}_override_{idx}'] = fix
                used.add('index override')
            else:
                # both: the specific one wins, whatever the order in the file
                extra[g - 1][f'{k}_override'] = {p: (wrong(rng, p, v) if rng.random() < 0.7 else v) for p, v in fix.items()}
                extra[g - 1][f'{k}_override_{idx}'] = fix
                used.add('global and index override')
        if f > 0 and rng.random() < 0.35:
            tgt[f'{k}_{idx}'] = o
            used.add('index object')
            if rng.random() < 0.5:
                d = tidy(o)
                if 'p' in d:
                    d['p'] = 777.0
                tgt[f'{k}_{sp.pick(rng, others)}'] = d
                used.add('decoy object')
        else:
            tgt[k] = o
    # 3. objects that a later file removes
    for j in range(int(rng.integers(0, 3))):
        nm = names.pop()
        f = int(rng.integers(0, nextra))
        tgt = base if f == 0 else extra[f - 1]
        tgt[nm] = {'class': 'VerifCfg', 'ident': 90 + j, 'outputs': ['out']}
        if where and rng.random() < 0.5:
            src = [x for x in objs if where[x] <= f]
            if src:
                tgt[nm]['inputs'] = {'a': f'{sp.pick(rng, src)}.out'}
        g = int(rng.integers(f + 1, nextra + 1))
        # objects already defined when the removal happens may consume it, and lose that input
        for k in objs:
            if where[k] < g and where[k] >= f and rng.random() < 0.4:
                ft = base if where[k] == 0 else extra[where[k] - 1]
                o = ft.get(k)
                if o is None or f'{k}_override' in str([list(e) for e in extra]) and any('inputs' in v for e in extra for kk, v in e.items() if kk.startswith(f'{k}_override')):
                    continue
                ins = o.setdefault('inputs', {})
                if rng.random() < 0.4:
                    ins['lst'] = list(ins.get('lst', [])) + [f'{nm}.out']
                else:
                    free = [s for s in 'abc' if s not in ins]
                    if free:
                        ins[free[0]] = f'{nm}.out'
        key = 'remove' if rng.random() < 0.5 else f'remove_{idx}'
        extra[g - 1].setdefault(key, [])
        extra[g - 1][key].append(nm)
        used.add(key.split('_')[0] + ('' if key == 'remove' else ' index'))
    # 4. decoys for other indices
    for e in extra:
        for k in objs:
            if rng.random() < 0.25:
                e[f'{k}_override_{sp.pick(rng, others)}'] = {'p': 12345.0, 'period': 7}
                used.add('decoy override')
        if rng.random() < 0.25:
            e[f'remove_{sp.pick(rng, others)}'] = [sp.pick(rng, objs)]
            used.add('decoy removal')
    # listing order inside a file is free, except that removal and overrides follow what they refer to in the same file
    files = []
    for i, e in enumerate([base] + extra):
        ks = list(e)
        rng.shuffle(ks)
        files.append(sp.write_yml({k: e[k] for k in ks}, f'f{i}.yml'))
    order = [list(e) for e in extra]
    c.describe(idx=idx, files=order, used=sorted(used), cli=cli, n=len(F))
    import yaml
    kw = dict(simul_idx=idx)
    if cli:
        kw['overrides'] = yaml.safe_dump(cli, default_flow_style=True)
    want = run(vp, F, sp)
    got = run(vp, files, sp, **kw)
    if not c.check(set(want) == set(got), 'compose:different-objects', f'{sorted(want)} vs {sorted(got)}'):
        return
    for k in want:
        if not c.check(want[k] == got[k], 'compose:different-behaviour',
                       f'object {k}: {next(((a, b) for a, b in zip(want[k] + [None], got[k] + [None]) if a != b), None)}'):
            return
    c.saw('objects compared', len(want))
    c.saw('events compared', sum(len(v) for v in want.values()))
    for u in used:
        c.saw(u)


TYPED = {'BaseValue': 'vector', 'Intensity': 'intensity', 'ElectricField': 'ef', 'Slopes': 'slopes', 'Pixels': 'pixels'}


def consumers(rng):
    """real objects with their required inputs and the type each expects"""
    return {
        'ctrl': ({'class': 'Integrator', 'simul_params_ref': 'main', 'int_gain': [0.5], 'n_modes': [4], 'delay': 1}, {'delta_comm': 'BaseValue'}),
        'ccd': ({'class': 'CCD', 'simul_params_ref': 'main', 'size': [6, 6], 'dt': 0.001, 'bandw': 100.0}, {'in_i': 'Intensity'}),
        'psf': ({'class': 'PSF', 'simul_params_ref': 'main', 'wavelengthInNm': 600.0, 'nd': 1}, {'in_ef': 'ElectricField'}),
        'rec': ({'class': 'Modalrec', 'nmodes': 2, 'identity': True}, {'in_slopes': 'Slopes'}) if False else
               ({'class': 'LowPassFilter', 'simul_params_ref': 'main', 'cutoff_freq': [100.0] * 4, 'delay': 0}, {'delta_comm': 'BaseValue'}),
        'dm': ({'class': 'DM', 'simul_params_ref': 'main', 'type_str': 'zernike', 'nmodes': 4, 'height': 0}, {'in_command': 'BaseValue'}),
        'op': ({'class': 'BaseOperation', 'sum': True}, {'in_value1': 'BaseValue', 'in_value2': 'BaseValue'}),
        'ext': ({'class': 'ExtendedSource'}, {}) if False else
               ({'class': 'PhaseFlattening'}, {'in_ef': 'ElectricField'}),
        'comb': ({'class': 'ElectricFieldCombinator'}, {'in_ef1': 'ElectricField', 'in_ef2': 'ElectricField'}),
        'win': ({'class': 'WindowedIntegration', 'simul_params_ref': 'main', 'n_elem': 4, 'dt': 0.001}, {'input': 'BaseValue'}),
    }


MIST = ['class', 'noclass', 'param', 'param_suffix', 'input', 'object', 'output', 'declared', 'type', 'missing', 'list', 'override', 'remove',
        'dup', 'ref', 'dictref', 'listref', 'tag', 'inputkind', 'nokey', 'cli_object', 'cli_param', 'cli_parts', 'object_file', 'datafile', 'missing_all']


@CHECK.section('mistakes', quick=260, thorough=4000, precisions=(1,))
def mistakes(c):
    """a valid configuration with exactly one mistake: refused before any object is stepped"""
    import contextlib, io
    from harness import sp
    from harness.probes import verif_probe as vp
    rng = c.rng
    F, objs, srcs, names = rand_target(c, rng)
    F['main'].update(pixel_pupil=6, time_step=0.001, total_time=0.003)
    cons = consumers(rng)
    ks = [str(k) for k in rng.permutation(list(cons))[:int(rng.integers(1, 4))]]
    for t, kind in TYPED.items():
        F['t' + t] = {'class': 'VerifTyped', 'kind': kind, 'size': 4 if kind == 'vector' else 6, 'seed': 3, 'outputs': ['out']}
    req = {}
    for k in ks:
        o, ins = cons[k]
        k = 'real_' + k + 'x'
        F[k] = dict(o, inputs={i: f't{t}.out' for i, t in ins.items()})
        req[k] = ins
    kind = MIST[c.i % len(MIST)]
    M = tidy(F)
    extra, kw = None, {}
    victim = sp.pick(rng, objs)
    real = sp.pick(rng, list(req))
    vo = M[victim]
    anyobj = sp.pick(rng, [k for k in M if k != 'main' and 'tag' not in M[k]])
    delayed = ':-1' if rng.random() < 0.3 else ''
    if kind == 'class':
        M[anyobj]['class'] = sp.pick(rng, ['VerifNotThere', M[anyobj]['class'] + 'x', M[anyobj]['class'].lower(), 'Simul'])
    elif kind == 'noclass':
        del M[anyobj]['class']
    elif kind == 'param':
        M[anyobj][sp.pick(rng, ['not_a_parameter', 'wavelenghtInNm', 'P', 'self2'])] = 1
    elif kind == 'param_suffix':
        M[anyobj][sp.pick(rng, ['foo_ref', 'foo_object', 'foo_data', 'foo_list_ref', 'foo_dict_ref'])] = sp.pick(rng, srcs)
        for n_ in list(M[anyobj]):
            if n_.startswith('foo_l') or n_.startswith('foo_di'):
                M[anyobj][n_] = [srcs[0]]
    elif kind == 'input':
        k = sp.pick(rng, [victim, real])
        M[k].setdefault('inputs', {})[sp.pick(rng, ['not_an_input', 'A', 'in_efx'])] = 'tBaseValue.out' + delayed
    elif kind == 'object':
        vo.setdefault('inputs', {})['a'] = 'nobody.out' + delayed
    elif kind == 'output':
        vo.setdefault('inputs', {})['a'] = 'tBaseValue.not_an_output' + delayed
    elif kind == 'declared':
        M[sp.pick(rng, [victim, 'tSlopes'])]['outputs'] = ['out', 'not_an_output']
    elif kind == 'type':
        i = sp.pick(rng, sorted(req[real]))
        bad = sp.pick(rng, [t for t in TYPED if t != req[real][i]])
        M[real]['inputs'][i] = f't{bad}.out' + delayed
        c.describe(bad=bad, input=i)
    elif kind == 'missing':
        i = sp.pick(rng, sorted(req[real]))
        del M[real]['inputs'][i]
    elif kind == 'missing_all':
        del M[real]['inputs']
    elif kind == 'list':
        i = sp.pick(rng, sorted(req[real]))
        M[real]['inputs'][i] = [f't{req[real][i]}.out'] * 2
    elif kind == 'override':
        extra = {'nobody_override': {'p': 1}}
    elif kind == 'remove':
        extra = {'remove': ['nobody']}
    elif kind == 'dup':
        extra = {anyobj: tidy(M[anyobj])}
    elif kind == 'ref':
        vo['src_ref'] = 'nobody'
    elif kind == 'dictref':
        vo['src_dict_ref'] = [srcs[0], 'nobody']
    elif kind == 'listref':
        vo['src_list_ref'] = [srcs[0], 'nobody']
    elif kind == 'tag':
        M['tagged'] = {'class': 'Slopes', 'tag': 'sn0', 'length': 4}
    elif kind == 'inputkind':
        vo.setdefault('inputs', {})['a'] = sp.pick(rng, [3, 1.5, {'x': 'y'}, True])
    elif kind == 'nokey':
        vo.setdefault('inputs', {})['a'] = srcs[0]
    elif kind == 'cli_object':
        kw['overrides'] = '{nobody.p: 3}'
    elif kind == 'cli_param':
        kw['overrides'] = '{%s.nothing_here: 3}' % victim
    elif kind == 'cli_parts':
        kw['overrides'] = sp.pick(rng, ['{%s: 3}', '{%s.d.k.l: 3}']) % victim
    elif kind == 'object_file':
        vo.pop('sn_ref', None)
        vo['sn_object'] = 'not_saved'
    elif kind == 'datafile':
        vo['arr_data'] = 'not_there'
    c.describe(kind=kind, victim=victim, real=real, anyobj=anyobj)
    files = [sp.write_yml(M, 'm.yml')]
    if extra:
        files.append(sp.write_yml(extra, 'e.yml'))
    vp.clear()
    refused = None
    try:
        sp.run_simul(files, **kw)
    except Exception as e:      # any refusal will do
        refused = e
    stepped = [ev for ev in vp.LOG if ev[0] in ('prepare', 'run', 'post')]
    c.check(refused is not None, f'mistakes:{kind}:accepted', 'the configuration was accepted and run')
    c.check(not stepped, f'mistakes:{kind}:stepped-first', f'{len(stepped)} steps were made before the refusal')
    c.saw('mistake ' + kind)
    # and the same configuration without the mistake runs
    if c.i % 4 == 0:
        vp.clear()
        sp.run_simul(F, 'ok.yml')
        c.check(any(ev[0] == 'run' for ev in vp.LOG), 'mistakes:valid-not-run')
        c.saw('valid control runs')


@CHECK.section('recorded', quick=80, thorough=1200, precisions=(0, 1))
def recorded(c):
    """the parameters saved with the results rebuild the same simulation"""
    import os
    import numpy as np
    from astropy.io import fits
    from harness import sp
    from harness.probes import verif_probe as vp
    rng = c.rng
    F, objs, srcs, names = rand_target(c, rng)
    d = f'rec{c.i}_{c.precision}'
    st = [str(x) for x in rng.permutation(objs)[:int(rng.integers(1, len(objs) + 1))]]
    F['store'] = {'class': 'DataStore', 'store_dir': d, 'create_tn': False, 'inputs': {'input_list': [f'v{i}-{x}.out' for i, x in enumerate(st)]}}
    if rng.random() < 0.3:
        F['store']['downsample_factor'] = 2
    if rng.random() < 0.3:
        F['buf'] = {'class': 'DataBuffer', 'buffer_size': 2, 'inputs': {'input_list': [f'w-{st[0]}.out']}}
    for k in objs:
        if rng.random() < 0.2:
            F[k]['target_rank'] = int(rng.integers(0, 3))
        if rng.random() < 0.2:
            F[k]['target_device_idx'] = -1
    # the effective parameters: some come from a second file and an override string
    extra, kw = {}, {}
    v = sp.pick(rng, objs)
    if rng.random() < 0.5:
        extra[f'{v}_override'] = {'p': 3.25, 'q': [1, 2]}
    if rng.random() < 0.5:
        kw['overrides'] = '{%s.p: 4.5, main.total_time: 0.004}' % sp.pick(rng, objs)
    files = [sp.write_yml(F, 'r.yml')] + ([sp.write_yml(extra, 'x.yml')] if extra else [])
    c.describe(store=st, extra=extra, cli=kw.get('overrides'), buf='buf' in F, n=len(F))
    want = run(vp, files, sp, **kw)
    data = {f: fits.getdata(os.path.join(d, f)) for f in sorted(os.listdir(d)) if f.endswith('.fits')}
    os.rename(d, d + '_first')
    got = run(vp, [d + '_first/params.yml'], sp)
    c.check(want == got, 'recorded:different-run', f'{[k for k in set(want) | set(got) if want.get(k) != got.get(k)]}')
    if c.check(os.path.isdir(d), 'recorded:nothing-stored'):
        data2 = {f: fits.getdata(os.path.join(d, f)) for f in sorted(os.listdir(d)) if f.endswith('.fits')}
        c.check(sorted(data) == sorted(data2), 'recorded:different-files', f'{sorted(data)} {sorted(data2)}')
        for f in data:
            c.check(f in data2 and np.array_equal(data[f], data2[f]), 'recorded:different-data', f)
        c.saw('stored arrays compared', len(data))
    c.saw('rebuilt simulations')


@CHECK.section('indices', quick=24, thorough=300, precisions=(1,))
def indices(c):
    """main_simul(nsimul=n) runs exactly the simulations of index 0..n-1"""
    import specula
    from harness import sp
    from harness.probes import verif_probe as vp
    rng = c.rng
    F, objs, srcs, names = rand_target(c, rng)
    n = int(rng.integers(1, 4))
    extra = {}
    for i in range(4):
        extra[f'{sp.pick(rng, objs)}_override_{i}'] = {'p': 100.0 + i}
        if rng.random() < 0.5:
            extra[f'extra_{i}'] = {'class': 'VerifCfg', 'ident': 70 + i, 'outputs': ['out']}
    files = [sp.write_yml(F, 'i.yml'), sp.write_yml(extra, 'ie.yml')]
    c.describe(n=n, extra=extra)
    want = [run(vp, files, sp, simul_idx=i) for i in range(n)]
    vp.clear()
    with sp.quiet():
        specula.main_simul(files, nsimul=n, cpu=True, precision=c.precision, no_speed_report=True)
    # split the log at the start of each simulation
    got = []
    for ev in vp.LOG:
        if ev[0] == 'args' and (not got or any(e[0] == 'final' for es in got[-1].values() for e in es)):
            got.append({})
        got[-1].setdefault(ev[1], []).append(ev)
    c.check(len(got) == n, 'indices:number', f'{len(got)} simulations instead of {n}')
    for i, (a, b) in enumerate(zip(want, got)):
        c.check(a == b, 'indices:different', f'index {i}')
        c.saw('simulations compared')
