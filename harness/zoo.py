"""Random complete SPECULA simulations made of real objects, and deep state digests."""
import hashlib
import os
import numpy as np

_SKIP = {'xp', '_target_device', 'stream', 'gpu_bytes_used', 'gpu_bytes_used_before', 'gpu_bytes_used_after', 'PerformanceWarning'}


def _feed(h, o, seen, depth):
    from specula.base_data_obj import BaseDataObj
    if isinstance(o, np.ndarray):
        h.update(f'A{o.shape}{o.dtype}'.encode())
        if o.dtype == object:
            for x in o.ravel():
                _feed(h, x, seen, depth + 1)
        else:
            h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, (bool, int, float, complex, str, bytes, type(None), np.generic)):
        h.update(f'S{type(o).__name__}{o!r}'.encode())
    elif isinstance(o, (list, tuple)):
        h.update(f'L{len(o)}'.encode())
        for x in o:
            _feed(h, x, seen, depth + 1)
    elif isinstance(o, dict):
        h.update(f'D{len(o)}'.encode())
        for k, v in o.items():
            h.update(repr(k).encode())
            _feed(h, v, seen, depth + 1)
    elif isinstance(o, BaseDataObj):
        if id(o) in seen or depth > 5:
            return
        seen.add(id(o))
        h.update(type(o).__name__.encode())
        for k in sorted(vars(o)):
            if k in _SKIP or callable(vars(o)[k]):
                continue
            h.update(k.encode())
            _feed(h, vars(o)[k], seen, depth + 1)


def digest(o, ignore_time=False):
    """hash of everything observable in a data object (arrays, scalars, nested data)"""
    h = hashlib.blake2b(digest_size=12)
    _feed(h, o, set(), 0)
    return h.hexdigest()


def content(o):
    """{attribute: array or scalar} of a data object, for reporting"""
    return {k: v for k, v in vars(o).items() if k not in _SKIP and isinstance(v, (np.ndarray, int, float, str, list, tuple))}


def _write_cal(root, cls, tag, obj):
    from specula.calib_manager import CalibManager
    cm = CalibManager(root)
    fn = cm.filename(cls, tag)
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    if os.path.exists(fn):
        os.remove(fn)
    obj.save(fn)


def sh_subapdata(nsub, npx, rng=None, keep=None):
    """synthetic SubapData on a nsub x nsub grid of npx x npx pixel cells (disk)"""
    from specula.data_objects.subap_data import SubapData
    side = nsub * npx
    frame = np.arange(side * side).reshape(side, side)
    idxs, dmap = [], []
    for i in range(nsub):
        for j in range(nsub):
            r = np.hypot(i - (nsub - 1) / 2, j - (nsub - 1) / 2)
            if (keep is None and r <= nsub / 2) or (keep is not None and keep[i, j]):
                idxs.append(frame[i * npx:(i + 1) * npx, j * npx:(j + 1) * npx].ravel())
                dmap.append(i * nsub + j)
    return SubapData(idxs=np.array(idxs), display_map=np.array(dmap), nx=nsub, ny=nsub, energy_th=0.5, target_device_idx=-1)


def pyr_pupdata(side, diam, dist):
    from specula.data_objects.pupdata import PupData
    y, x = np.mgrid[0:side, 0:side]
    c = (side - 1) / 2
    cols, cxs, cys = [], [], []
    for sy, sx in ((1, -1), (1, 1), (-1, -1), (-1, 1)):
        cy, cx = round(c + sy * dist / 2 - 0.5) + 0.5, round(c + sx * dist / 2 - 0.5) + 0.5
        cols.append(np.flatnonzero(np.hypot(y - cy, x - cx).ravel() <= diam / 2))
        cxs.append(cx); cys.append(cy)
    n = min(len(a) for a in cols)
    ind = np.stack([a[:n] for a in cols], axis=1)
    return PupData(ind_pup=ind, radius=np.full(4, diam / 2), cx=np.array(cxs), cy=np.array(cys), framesize=[side, side], target_device_idx=-1)


def system(rng, nsteps=6, seeds=None, atmo=None, wfs=None, rich=True, noise=True, dt=0.001, root='calib', prec=0):
    """A random complete AO system. Returns (params, info)."""
    from specula.data_objects.recmat import Recmat
    P = lambda s: s[int(rng.integers(len(s)))]
    sd = int(rng.integers(1, 10 ** 6)) if seeds is None else int(seeds)
    npup = 32
    params = {'main': {'class': 'SimulParams', 'root_dir': './' + root, 'time_step': dt, 'total_time': round(nsteps * dt, 9), 'pixel_pupil': npup,
                       'pixel_pitch': 0.1, 'zenithAngleInDeg': float(P([0, 0, 30.0])), 'add_modules': ['harness.probes']}}
    atmo = atmo or P(['evolution', 'evolution', 'random', 'infinite', 'none', 'cube'])
    wfs = wfs or P(['sh', 'sh', 'pyr', 'pyr', 'ideal', 'none'])
    nsrc = int(rng.integers(1, 4)) if rich else 1
    srcs = []
    for i in range(nsrc):
        nm = f'src{i}'
        params[nm] = {'class': 'Source', 'polar_coordinates': [0.0, 0.0] if i == 0 else [float(rng.uniform(0, 20)), float(rng.uniform(0, 360))],
                      'magnitude': float(rng.uniform(5, 9)), 'wavelengthInNm': P([600, 750])}
        if i and rng.random() < 0.4:
            params[nm]['height'] = 90000.0
        srcs.append(nm)
    params['pupilstop'] = {'class': 'Pupilstop', 'simul_params_ref': 'main'}
    if rng.random() < 0.5:
        params['pupilstop']['obs_diam'] = 0.2
    common = ['pupilstop']
    prop_inputs = {}
    fov = 40.0
    if atmo in ('evolution', 'infinite'):
        nl = int(rng.integers(1, 4))
        cn2 = rng.dirichlet(np.ones(nl))
        cn2 = np.round(cn2, 3); cn2[0] += 1 - cn2.sum()
        params['seeing'] = {'class': 'WaveGenerator', 'constant': float(rng.uniform(0.4, 1.2)), 'outputs': ['output']}
        params['wind_speed'] = {'class': 'WaveGenerator', 'constant': [float(v) for v in rng.uniform(3, 20, nl)], 'outputs': ['output']}
        params['wind_direction'] = {'class': 'WaveGenerator', 'constant': [float(P([0, 90, 30.0, 200.0])) for _ in range(nl)], 'outputs': ['output']}
        a = {'class': 'AtmoEvolution' if atmo == 'evolution' else 'AtmoInfiniteEvolution', 'simul_params_ref': 'main',
             'heights': [0.0, 3000.0, 9000.0][:nl], 'Cn2': [float(v) for v in cn2], 'fov': fov, 'seed': sd,
             'L0': 25.0 if atmo == 'evolution' else [25.0] * nl,
             'inputs': {'seeing': 'seeing.output', 'wind_speed': 'wind_speed.output', 'wind_direction': 'wind_direction.output'}, 'outputs': ['layer_list']}
        if atmo == 'evolution':
            a['pixel_phasescreens'] = 256
        params['atmo'] = a
        prop_inputs['atmo_layer_list'] = ['atmo.layer_list']
    elif atmo == 'random':
        params['seeing'] = {'class': 'WaveGenerator', 'constant': float(rng.uniform(0.4, 1.2)), 'outputs': ['output']}
        params['atmo'] = {'class': 'AtmoRandomPhase', 'simul_params_ref': 'main', 'L0': 25.0, 'pixel_phasescreens': 256, 'seed': sd, 'update_interval': P([1, 2]),
                          'wavelengthInNm': 500.0,
                          'inputs': {'seeing': 'seeing.output', 'pupilstop': 'pupilstop'}, 'outputs': ['out_layer']}
        common.append('atmo.out_layer')
    elif atmo == 'cube':
        from specula.data_objects.spatio_temp_array import SpatioTempArray
        tv = np.arange(3 * nsteps) * 1e-3
        r2 = np.random.default_rng(sd)
        _write_cal(root, 'SpatioTempArray', 'cube', SpatioTempArray(r2.standard_normal((3 * nsteps, 40, 40)) * 50, tv, time_axis=0, target_device_idx=-1))
        params['cube'] = {'class': 'SpatioTempArray', 'tag': 'cube'}
        params['atmo'] = {'class': 'PhaseScreenCube', 'simul_params_ref': 'main', 'cube_ref': 'cube', 'pixel_scale': 0.1,
                          'inputs': {'pupilstop': 'pupilstop'}, 'outputs': ['out_layer']}
        common.append('atmo.out_layer')
    nmodes = int(rng.integers(4, 12))
    if atmo == 'none':
        params['jitter'] = {'class': 'RandomGenerator', 'amp': [60.0] * 5, 'seed': sd + 3, 'outputs': ['output']}
        params['jdm'] = {'class': 'DM', 'simul_params_ref': 'main', 'type_str': 'zernike', 'nmodes': 5, 'obsratio': 0.0, 'height': 0,
                         'inputs': {'in_command': 'jitter.output'}, 'outputs': ['out_layer']}
        common.append('jdm.out_layer')
    ndm = 1 + int(rich and rng.random() < 0.4)
    prop = {'class': 'AtmoPropagation', 'simul_params_ref': 'main', 'source_dict_ref': srcs, 'inputs': prop_inputs, 'outputs': [f'out_{s}_ef' for s in srcs]}
    params['prop'] = prop
    ef0 = f'prop.out_{srcs[0]}_ef'
    modes = None
    if wfs in ('sh', 'pyr'):
        if wfs == 'sh':
            nsub, npx = 8, 6
            side = nsub * npx
            params['wfs'] = {'class': 'SH', 'subap_wanted_fov': 3.0, 'sensor_pxscale': 0.5, 'subap_npx': npx, 'subap_on_diameter': nsub, 'wavelengthInNm': 600,
                             'inputs': {'in_ef': ef0}, 'outputs': ['out_i']}
            sdat = sh_subapdata(nsub, npx)
            _write_cal(root, 'SubapData', 'sd', sdat)
            params['geom'] = {'class': 'SubapData', 'tag': 'sd'}
            slopec = {'class': 'ShSlopec', 'subapdata_ref': 'geom'}
            ns = sdat.n_subaps * 2
        else:
            side = 36
            params['wfs'] = {'class': 'ModulatedPyramid', 'simul_params_ref': 'main', 'pup_diam': 12, 'pup_dist': 16, 'fov': 1.2, 'mod_amp': P([0.0, 3.0]),
                             'output_resolution': side, 'wavelengthInNm': 600, 'inputs': {'in_ef': ef0}, 'outputs': ['out_i']}
            if params['wfs']['mod_amp'] == 0:
                params['wfs']['mod_step'] = 1
            pd = pyr_pupdata(side, 12, 16)
            _write_cal(root, 'pupdata', 'pd', pd)
            slopec = {'class': 'PyrSlopec', 'pupdata_object': 'pd'}
            ns = pd.n_subap * 2
        mult = P([1, 1, 2]) if rich else 1
        params['ccd'] = {'class': 'CCD', 'simul_params_ref': 'main', 'size': [side, side], 'dt': dt * mult, 'bandw': 300, 'photon_noise': bool(noise and rng.random() < 0.7),
                         'readout_noise': bool(noise and rng.random() < 0.6), 'readout_level': 1.0, 'quantum_eff': 0.3,
                         'photon_seed': sd + 1, 'readout_seed': sd + 2, 'inputs': {'in_i': 'wfs.out_i'}, 'outputs': ['out_pixels']}
        slopec.update(inputs={'in_pixels': 'ccd.out_pixels'}, outputs=['out_slopes'])
        params['slopec'] = slopec
    elif wfs == 'ideal':
        sdat = sh_subapdata(8, 4)
        _write_cal(root, 'SubapData', 'sd', sdat)
        params['geom'] = {'class': 'SubapData', 'tag': 'sd'}
        params['slopec'] = {'class': 'IdealDerivativeSensor', 'simul_params_ref': 'main', 'subapdata_ref': 'geom', 'fov': 3.0,
                            'inputs': {'in_ef': ef0}, 'outputs': ['out_slopes']}
        ns = sdat.n_subaps * 2
    if wfs != 'none':
        r2 = np.random.default_rng(sd + 7)
        R = Recmat((r2.standard_normal((nmodes, ns)) * 30 / ns), target_device_idx=-1)
        _write_cal(root, 'Recmat', 'rm', R)
        params['rm'] = {'class': 'Recmat', 'tag': 'rm'}
        params['rec'] = {'class': 'Modalrec', 'recmat_ref': 'rm', 'inputs': {'in_slopes': 'slopec.out_slopes'}, 'outputs': ['out_modes']}
        src = 'rec.out_modes'
        ctl = P(['integrator', 'integrator', 'lpf', 'iir'])
    else:
        params['dist'] = {'class': 'RandomGenerator', 'amp': [20.0] * nmodes, 'seed': sd + 9, 'outputs': ['output']}
        src, ctl = 'dist.output', 'integrator'
    if ctl == 'lpf':
        params['control'] = {'class': 'LowPassFilter', 'simul_params_ref': 'main', 'cutoff_freq': [80.0] * nmodes, 'n_ord': 1, 'delay': P([0, 1, 1.5])}
    elif ctl == 'iir':
        params['filt'] = {'class': 'IirFilterData', 'ordnum': [2] * nmodes, 'ordden': [2] * nmodes, 'num': [[0.0, 0.4]] * nmodes, 'den': [[-0.99, 1.0]] * nmodes}
        params['control'] = {'class': 'IirFilter', 'simul_params_ref': 'main', 'iir_filter_data_ref': 'filt', 'delay': P([0, 1, 2])}
    else:
        params['control'] = {'class': 'Integrator', 'simul_params_ref': 'main', 'delay': P([0, 1, 2, 1.3]), 'int_gain': [0.3], 'n_modes': [nmodes]}
    params['control'].update(inputs={'delta_comm': src}, outputs=['out_comm'])
    if ndm == 1:
        params['dm'] = {'class': 'DM', 'simul_params_ref': 'main', 'type_str': P(['zernike', 'zernike', 'kl']) if False else 'zernike', 'nmodes': nmodes, 'obsratio': 0.1, 'height': 0,
                        'inputs': {'in_command': 'control.out_comm'}, 'outputs': ['out_layer']}
        common.append('dm.out_layer:-1')
    else:
        h = nmodes // 2
        params['cut0'] = {'class': 'BaseSlicer', 'slice_args': [0, h], 'inputs': {'in_value': 'control.out_comm'}, 'outputs': ['out_value']}
        params['cut1'] = {'class': 'BaseSlicer', 'slice_args': [h, nmodes], 'inputs': {'in_value': 'control.out_comm'}, 'outputs': ['out_value']}
        params['dm'] = {'class': 'DM', 'simul_params_ref': 'main', 'type_str': 'zernike', 'nmodes': h, 'obsratio': 0.1, 'height': 0,
                        'inputs': {'in_command': 'cut0.out_value'}, 'outputs': ['out_layer']}
        params['dm2'] = {'class': 'DM', 'simul_params_ref': 'main', 'type_str': 'zernike', 'nmodes': nmodes - h, 'start_mode': 0, 'npixels': 44,
                         'height': 4000.0, 'inputs': {'in_command': 'cut1.out_value'}, 'outputs': ['out_layer']}
        common += ['dm.out_layer:-1', 'dm2.out_layer:-1']
    prop_inputs['common_layer_list'] = common
    if not rich:
        prop.pop('doFresnel', None)
    outs = {'control.out_comm': 'comm', ef0: 'ef', 'dm.out_layer': 'lay'}
    if wfs != 'none':
        outs.update({'rec.out_modes': 'modes', 'slopec.out_slopes': 'slopes'})
    if wfs in ('sh', 'pyr'):
        outs.update({'ccd.out_pixels': 'pix', 'wfs.out_i': 'inten'})
    return params, dict(atmo=atmo, wfs=wfs, nsrc=nsrc, srcs=srcs, ndm=ndm, ctl=ctl, nmodes=nmodes, outs=outs, seed=sd, ef0=ef0)


def observers(rng, params, info, npick=None, store=True):
    """observer branches (a dict of extra objects) for a system"""
    P = lambda s: s[int(rng.integers(len(s)))]
    ex = {}
    efs = [f'prop.out_{s}_ef' for s in info['srcs']]
    avail = {
        'o_psf': {'class': 'PSF', 'simul_params_ref': 'main', 'wavelengthInNm': 1650, 'nd': 2, 'start_time': float(P([0.0, 0.002])), 'verbose': False,
                  'inputs': {'in_ef': P(efs)}, 'outputs': ['out_psf', 'out_sr']},
        'o_psf2': {'class': 'PSF', 'simul_params_ref': 'main', 'wavelengthInNm': 900, 'nd': 3, 'start_time': 0.0, 'verbose': False, 'compute_profile_metrics': True,
                   'inputs': {'in_ef': P(efs)}, 'outputs': ['out_psf', 'out_sr']},
        'o_ma': {'class': 'ModalAnalysis', 'type_str': 'zernike', 'npixels': 32, 'nmodes': 10, 'obsratio': 0.1, 'dorms': True,
                 'inputs': {'in_ef': P(efs)}, 'outputs': ['out_modes', 'rms']},
        'o_flat': {'class': 'PhaseFlattening', 'inputs': {'in_ef': P(efs)}, 'outputs': ['out_ef']},
        'o_refl': {'class': 'ElectricFieldReflection', 'inputs': {'in_ef': P(efs)}, 'outputs': ['out_ef']},
        'o_comb': {'class': 'ElectricFieldCombinator', 'inputs': {'in_ef1': P(efs), 'in_ef2': P(efs)}, 'outputs': ['out_ef']},
        'o_lyot': {'class': 'LyotCoronagraph', 'simul_params_ref': 'main', 'wavelengthInNm': 1650, 'iwaInLambdaOverD': 2.0, 'inputs': {'in_ef': P(efs)}, 'outputs': ['out_ef']},
        'o_psfc': {'class': 'PsfCoronagraph', 'simul_params_ref': 'main', 'wavelengthInNm': 1650, 'nd': 2, 'verbose': False, 'inputs': {'in_ef': P(efs)}, 'outputs': ['out_coronagraph_psf']},
        'o_op': {'class': 'BaseOperation', 'constant_mul': 3.0, 'constant_sum': -1.0, 'inputs': {'in_value1': 'control.out_comm'}, 'outputs': ['out_value']},
        'o_sl': {'class': 'BaseSlicer', 'slice_args': [0, 2], 'inputs': {'in_value': 'control.out_comm'}, 'outputs': ['out_value']},
        'o_ins': {'class': 'BaseInserter', 'output_size': [info['nmodes'] + 3], 'slice_args': [[0, info['nmodes']], [1, info['nmodes'] + 1]], 'inputs': {'in_value': 'control.out_comm'}, 'outputs': ['out_value']},
        'o_win': {'class': 'WindowedIntegration', 'simul_params_ref': 'main', 'n_elem': info['nmodes'], 'dt': 0.002, 'inputs': {'input': 'control.out_comm'}, 'outputs': ['output']},
        'o_prn': {'class': 'DataPrint', 'print_dt': 0.002, 'inputs': {'in_value': 'control.out_comm'}},
        'o_int': {'class': 'Integrator', 'simul_params_ref': 'main', 'delay': 1, 'int_gain': [0.2], 'n_modes': [info['nmodes']], 'inputs': {'delta_comm': 'control.out_comm'}, 'outputs': ['out_comm']},
        'o_dm': {'class': 'DM', 'simul_params_ref': 'main', 'type_str': 'zernike', 'nmodes': info['nmodes'], 'obsratio': 0.0, 'height': 0, 'sign': 1,
                 'inputs': {'in_command': 'control.out_comm'}, 'outputs': ['out_layer']},
        'o_buf': {'class': 'DataBuffer', 'buffer_size': int(P([1, 2, 3])), 'inputs': {'input_list': [f'b{k}-{o}' for k, o in enumerate(info['outs']) if 'pix' not in o]}},
        'o_zs': {'class': 'ZernikeSensor', 'simul_params_ref': 'main', 'wavelengthInNm': 600, 'fov': 1.2, 'pup_diam': 16, 'output_resolution': 32, 'inputs': {'in_ef': P(efs)}, 'outputs': ['out_i']},
        'o_ciao': {'class': 'CiaoCiaoSensor', 'wavelengthInNm': 600, 'number_px': 32, 'tiltInArcsec': [0.05, 0.0], 'inputs': {'in_ef': P(efs)}, 'outputs': ['out_i']},
        'o_curv': {'class': 'CurvatureSensor', 'wavelengthInNm': 600, 'wanted_fov': 3.0, 'pxscale': 0.1, 'number_px': 20, 'defocus_rms_nm': 500.0, 'inputs': {'in_ef': P(efs)}, 'outputs': ['out_i1', 'out_i2']},
        'o_dr': {'class': 'ModulatedDoubleRoof', 'simul_params_ref': 'main', 'pup_diam': 12, 'pup_dist': 16, 'fov': 1.2, 'mod_amp': 2.0, 'output_resolution': 36, 'wavelengthInNm': 600,
                 'inputs': {'in_ef': P(efs)}, 'outputs': ['out_i']},
        'o_psh': {'class': 'PolyChromSH', 'wavelengthInNm': [600, 700], 'flux_factor': [0.4, 0.6], 'subap_wanted_fov': 3.0, 'sensor_pxscale': 0.5, 'subap_npx': 6, 'subap_on_diameter': 8,
                  'xy_tilts_in_arcsec': [[0.0, 0.0], [0.1, 0.0]], 'inputs': {'in_ef': P(efs)}, 'outputs': ['out_i']},
        'o_dsh': {'class': 'DistributedSH', 'wavelengthInNm': 600, 'n_slices': int(P([1, 2, 3])), 'subap_wanted_fov': 3.0, 'sensor_pxscale': 0.5, 'subap_npx': 6, 'subap_on_diameter': 8,
                  'inputs': {'in_ef': P(efs)}, 'outputs': ['out_i']},
        'o_fpf': {'class': 'FocalPlaneFilter', 'simul_params_ref': 'main', 'wavelengthInNm': 600, 'fov': 1.0, 'fp_obs': 0.1, 'inputs': {'in_ef': P(efs)}, 'outputs': ['out_ef']},
        'o_vor': {'class': 'VortexCoronagraph', 'simul_params_ref': 'main', 'wavelengthInNm': 1650, 'vortexCharge': 2.0, 'inputs': {'in_ef': P(efs)}, 'outputs': ['out_ef']},
        'o_4q': {'class': 'FourQuadrantCoronagraph', 'simul_params_ref': 'main', 'wavelengthInNm': 1650, 'inputs': {'in_ef': P(efs)}, 'outputs': ['out_ef']},
        'o_dem': {'class': 'Demodulator', 'simul_params_ref': 'main', 'mode_numbers': [0, 1], 'carrier_frequencies': [100.0, 200.0], 'demod_dt': 0.004, 'inputs': {'in_data': 'control.out_comm'}, 'outputs': ['output']},
        'o_snif': {'class': 'VerifSniffer', 'inputs': {'drv': 'control.out_comm'}},
    }
    if info['wfs'] == 'sh':
        avail['o_spot'] = {'class': 'SpotMonitor', 'subapdata_ref': 'geom', 'inputs': {'in_pixels': 'ccd.out_pixels'}, 'outputs': ['out_sum_pixels']}
        avail['o_sh'] = dict(params['wfs'], inputs={'in_ef': P(efs)})
        avail['o_sc'] = {'class': 'ShSlopec', 'subapdata_ref': 'geom', 'thr_value': 1.0, 'weightedPixRad': 2.0, 'inputs': {'in_pixels': 'ccd.out_pixels'}, 'outputs': ['out_slopes']}
        avail['o_ccd'] = dict(params['ccd'], photon_noise=True, photon_seed=99, binning=1)
    if info['wfs'] == 'pyr':
        avail['o_pyr'] = dict(params['wfs'], inputs={'in_ef': P(efs)}, mod_amp=2.0)
        avail['o_pyr'].pop('mod_step', None)
        avail['o_ccd'] = dict(params['ccd'], photon_noise=True, photon_seed=99)
        avail['o_psc'] = {'class': 'PyrSlopec', 'pupdata_object': 'pd', 'thr_value': 1.0, 'inputs': {'in_pixels': 'ccd.out_pixels'}, 'outputs': ['out_slopes']}
    if info['atmo'] in ('evolution', 'infinite'):
        avail['o_prop'] = {'class': 'AtmoPropagation', 'simul_params_ref': 'main', 'source_dict_ref': [info['srcs'][-1]],
                           'inputs': {'atmo_layer_list': ['atmo.layer_list'], 'common_layer_list': ['pupilstop']}, 'outputs': [f"out_{info['srcs'][-1]}_ef"]}
    del avail['o_snif']
    keys = list(avail)
    k = npick or int(rng.integers(2, 9))
    for i in rng.choice(len(keys), min(k, len(keys)), replace=False):
        ex[keys[int(i)]] = avail[keys[int(i)]]
    if store:
        items = [f'{n}-{o}' for o, n in info['outs'].items() if n not in ('lay',)]
        ex['store'] = {'class': 'DataStore', 'store_dir': './out', 'data_format': P(['fits', 'pickle']), 'downsample_factor': P([1, 2]),
                       'inputs': {'input_list': items}}
    return ex
