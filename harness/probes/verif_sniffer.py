"""Pass-through monitor: logs the value/time of whatever is connected; needs a driver to be run every step."""
import numpy as np
from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
from specula.base_data_obj import BaseDataObj
from specula.connections import InputList, InputValue
from harness.probes import verif_probe


def snap(x):
    """Deep, type-independent snapshot of a data object's published state."""
    out = {}
    for k, v in sorted(vars(x).items()):
        if isinstance(v, np.ndarray):
            out[k] = v.copy()
        elif isinstance(v, (int, float, np.number, bool, str)) or v is None:
            if k not in ('name',):
                out[k] = v
    return out


class VerifSniffer(BaseProcessingObj):
    def __init__(self, target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self.inputs['drv'] = InputValue(type=BaseDataObj, optional=True)
        self.inputs['x'] = InputList(type=BaseDataObj, optional=True)

    @classmethod
    def input_names(cls):
        return {'drv': InputDesc(BaseDataObj, 'driver (optional)'), 'x': InputDesc(BaseDataObj, 'watched (optional)')}

    @classmethod
    def output_names(cls):
        return {}

    def trigger_code(self):
        verif_probe.LOG.append(('sniff', self.name, self.current_time, [snap(v) for v in self.local_inputs['x']]))
