"""Recording probe objects, loaded into real simulations through SimulParams.add_modules."""
import numpy as np
from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
from specula.base_value import BaseValue
from specula.connections import InputList, InputValue

LOG = []          # chronological event log (single thread)


def clear():
    del LOG[:]


class VerifProbe(BaseProcessingObj):
    """A node with unique output values [ident, trigger_count, time_ns].

    period: publishes on every period-th run only.  style: how the output is published.
    """
    def __init__(self, ident: int, period: int = 1, style: str = 'rebind', nlist: int = 0,
                 target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self.ident, self.period, self.style = ident, period, style
        self.count = 0
        self.hist = np.zeros((2, 3))
        self.hist[:] = [ident, 0, -1]
        self.out = BaseValue(value=np.array([ident, 0, -1], dtype=float), target_device_idx=target_device_idx, precision=0)
        if style == 'shift':
            self.out.value = self.hist[0]
        self.items = [BaseValue(value=np.array([ident, 0, -1], dtype=float), target_device_idx=target_device_idx, precision=0)
                      for _ in range(nlist)]
        self.inputs['a'] = InputValue(type=BaseValue, optional=True)
        self.inputs['b'] = InputValue(type=BaseValue, optional=True)
        self.inputs['c'] = InputValue(type=BaseValue, optional=True)
        self.inputs['lst'] = InputList(type=BaseValue, optional=True)
        self.outputs['out'] = self.out
        self.outputs['out_list'] = self.items

    @classmethod
    def input_names(cls):
        return {k: InputDesc(BaseValue, f'{k} (optional)') for k in ('a', 'b', 'c', 'lst')}

    @classmethod
    def output_names(cls):
        return {'out': OutputDesc(BaseValue, 'unique value'), 'out_list': OutputDesc(list, 'list of unique values')}

    def _see(self):
        seen = {}
        for k, v in self.local_inputs.items():
            vs = v if isinstance(v, list) else ([] if v is None else [v])
            seen[k] = [(tuple(np.array(x.value, dtype=float).ravel().tolist()), x.generation_time) for x in vs]
        return seen

    def setup(self):
        super().setup()
        LOG.append(('setup', self.name))

    def prepare_trigger(self, t):
        super().prepare_trigger(t)
        LOG.append(('prepare', self.name, t, self._see(), self.current_time_seconds))
        self.count += 1
        self.fire = (self.count % self.period == 0)
        if self.fire and self.style == 'shift':
            # like a delay line: the state behind the published view moves in the preparation phase
            self.hist[1] = self.hist[0]
            self.hist[0] = [self.ident, self.count, t]

    def trigger_code(self):
        LOG.append(('run', self.name, self.current_time, self._see()))
        if self.fire and self.style == 'inplace':
            self.out.value[:] = [self.ident, self.count, self.current_time]

    def post_trigger(self):
        super().post_trigger()
        LOG.append(('post', self.name, self.current_time, self._see()))
        if self.fire:
            if self.style == 'rebind':
                self.out.value = np.array([self.ident, self.count, self.current_time], dtype=float)
            self.out.generation_time = self.current_time
            for x in self.items:
                x.value = np.array([self.ident, self.count, self.current_time], dtype=float)
                x.generation_time = self.current_time

    def finalize(self):
        super().finalize()
        LOG.append(('final', self.name))
