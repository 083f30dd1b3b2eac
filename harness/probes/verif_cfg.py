"""Probe recording every constructor argument it was given, to compare configurations."""
import numpy as np
from specula.base_data_obj import BaseDataObj
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.slopes import Slopes
from specula.data_objects.source import Source
from harness.probes import verif_probe


def digest(x):
    if isinstance(x, np.ndarray):
        return ('arr', x.shape, tuple(np.asarray(x, dtype=float).ravel().tolist()))
    if isinstance(x, dict):
        return ('dict', tuple(sorted((str(k), digest(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return ('list', tuple(digest(v) for v in x))
    if isinstance(x, Slopes):
        return ('Slopes', digest(np.asarray(x.slopes)))
    if isinstance(x, Source):
        return ('Source', digest(list(x.polar_coordinates)), float(x.magnitude), float(x.wavelengthInNm))
    if isinstance(x, SimulParams):
        return ('SimulParams', x.pixel_pupil, x.pixel_pitch, x.time_step, x.total_time)
    if isinstance(x, BaseDataObj):
        return (type(x).__name__,)
    if isinstance(x, (bool, str)) or x is None:
        return x
    return float(x)


class VerifCfg(verif_probe.VerifProbe):
    def __init__(self, ident: int, period: int = 1, p: float = 0.0, q: list = None, d: dict = None,
                 simul_params: SimulParams = None, src: Source = None, src_dict: dict = None, src_list: list = None,
                 arr=None, sn: Slopes = None, sn_list: list[Slopes] = None, sn_dict: dict[str, Slopes] = None,
                 target_device_idx: int = None, precision: int = None):
        super().__init__(ident, period, target_device_idx=target_device_idx, precision=precision)
        self.args = tuple(digest(x) for x in (ident, period, p, q, d, simul_params, src, src_dict, src_list, arr, sn, sn_list, sn_dict))
        self.objs = [x for x in [simul_params, src] + list((src_dict or {}).values()) + list(src_list or []) if x is not None]

    def setup(self):
        verif_probe.LOG.append(('args', self.name, self.args))
        super().setup()
