"""Probe publishing data objects of many types with random contents, refreshed at a chosen rate."""
import numpy as np
from specula.base_processing_obj import BaseProcessingObj, OutputDesc
from specula.base_value import BaseValue
from specula.base_data_obj import BaseDataObj
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.pixels import Pixels
from specula.data_objects.slopes import Slopes
from specula.data_objects.intensity import Intensity


class VerifTyped(BaseProcessingObj):
    """Time driven source.  kind: type of the output; pattern: published when pattern[count % len] is 1;
    style: rebind (a new array at every publication) or inplace (the same memory is rewritten)."""
    def __init__(self, kind: str, size: int, seed: int, pattern: list = [1], style: str = 'rebind', scribble: bool = False,
                 target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self.kind, self.size, self.pattern, self.style, self.scribble = kind, size, list(pattern), style, scribble
        self.rng = np.random.default_rng(seed)
        self.count = 0
        d = self.dtype
        n = size
        if kind == 'vector':
            self.out = BaseValue(value=np.zeros(n, dtype=d), precision=precision)
        elif kind == 'matrix':
            self.out = BaseValue(value=np.zeros((n, n + 1), dtype=d), precision=precision)
        elif kind == 'scalar':
            self.out = BaseValue(value=np.zeros((), dtype=d), precision=precision)
        elif kind == 'number':
            self.out = BaseValue(value=0.0, precision=precision)
        elif kind == 'int':
            self.out = BaseValue(value=np.zeros(n, dtype=int), precision=precision)
        elif kind == 'ef':
            self.out = ElectricField(n, n, 0.1, precision=precision)
        elif kind == 'pixels':
            self.out = Pixels(n, n, bits=16, signed=0, precision=precision)
        elif kind == 'slopes':
            self.out = Slopes(2 * n, precision=precision)
        elif kind == 'intensity':
            self.out = Intensity(n, n, precision=precision)
        else:
            raise ValueError(kind)
        self.outputs['out'] = self.out

    @classmethod
    def input_names(cls):
        return {}

    @classmethod
    def output_names(cls):
        return {'out': OutputDesc(BaseDataObj, 'typed value')}

    def _new(self, shape, dtype):
        if np.issubdtype(dtype, np.integer):
            return self.rng.integers(0, 4000, shape).astype(dtype)
        return np.asarray(self.rng.normal(size=shape) * 10 ** self.rng.uniform(-3, 4)).astype(dtype)

    def trigger_code(self):
        fire = bool(self.pattern[self.count % len(self.pattern)])
        self.count += 1
        if not fire:
            if self.scribble and self.kind in ('vector', 'matrix'):
                # internal work on the live array between publications
                self.out.value[:] = -12345.0
            return
        o = self.out
        if self.kind == 'number':
            o.value = float(self.dtype(self._new((), np.float64)))
        elif self.kind in ('vector', 'matrix', 'scalar', 'int'):
            v = self._new(o.value.shape, o.value.dtype)
            if self.style == 'inplace':
                o.value[...] = v
            else:
                o.value = v
        else:
            attr = {'ef': 'field', 'pixels': 'pixels', 'slopes': 'slopes', 'intensity': 'i'}[self.kind]
            cur = getattr(o, attr)
            v = self._new(cur.shape, cur.dtype)
            if self.style == 'inplace':
                cur[...] = v
            else:
                setattr(o, attr, v)
        o.generation_time = self.current_time
