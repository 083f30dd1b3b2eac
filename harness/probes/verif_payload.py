"""Producers of every kind of payload, and a consumer that records exactly what it received."""
import numpy as np
from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
from specula.base_data_obj import BaseDataObj
from specula.base_value import BaseValue
from specula.connections import InputList, InputValue
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.intensity import Intensity
from specula.data_objects.layer import Layer
from specula.data_objects.pixels import Pixels
from specula.data_objects.slopes import Slopes

LOG = []


def clear():
    del LOG[:]


KINDS = ['array', 'scalar', 'none_array', 'none_scalar', 'grow', 'fortran', 'view', 'zerod', 'ef', 'ef_setup', 'layer', 'intensity', 'pixels', 'slopes', 'slopes_setup', 'rebind_ef', 'text']


class VerifPayload(BaseProcessingObj):
    def __init__(self, kind: str, seed: int, period: int = 1, simul_params=None, target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self.kind, self.period, self.count = kind, period, 0
        self.rng = np.random.default_rng(seed)
        kw = dict(target_device_idx=self.target_device_idx, precision=self.precision)
        n = int(self.rng.integers(2, 5))
        self.n = n
        if kind in ('ef', 'ef_setup', 'rebind_ef'):
            o = ElectricField(n, n, 0.1, S0=0.0, **kw)
        elif kind == 'layer':
            o = Layer(n, n, 0.1, 1000.0, **kw)
        elif kind == 'intensity':
            o = Intensity(n, n, **kw)
        elif kind == 'pixels':
            o = Pixels(n, n, **kw)
        elif kind in ('slopes', 'slopes_setup'):
            o = Slopes(2 * n, **kw)
        elif kind in ('none_array', 'none_scalar', 'text'):
            o = BaseValue(**kw)
        elif kind == 'scalar':
            o = BaseValue(value=0.5, **kw)
        elif kind == 'fortran':
            o = BaseValue(**kw)
            o.value = np.asfortranarray(np.zeros((n, n + 1), dtype=self.dtype))
        elif kind == 'view':
            o = BaseValue(**kw)
            self.buf = np.zeros((n, 3), dtype=self.dtype)
            o.value = self.buf[:, 0]
        elif kind == 'zerod':
            o = BaseValue(**kw)
            o.value = np.zeros((), dtype=self.dtype)
        else:
            o = BaseValue(value=np.zeros(n), **kw)
        self.out = o
        self.outputs['out'] = o
        self.inputs['drv'] = InputValue(type=BaseDataObj, optional=True)

    @classmethod
    def input_names(cls):
        return {'drv': InputDesc(BaseDataObj, 'driver (optional)')}

    @classmethod
    def output_names(cls):
        return {'out': OutputDesc(BaseDataObj, 'payload')}

    def setup(self):
        super().setup()
        if self.kind == 'ef_setup':
            self.out.S0 = 7.5
        if self.kind == 'slopes_setup':
            self.out.resize(2 * self.n + 2)
            self.out.display_map = np.arange(self.n + 1)
            self.out.single_mask = np.ones((self.n, self.n), dtype=self.dtype)

    def trigger_code(self):
        self.count += 1
        if self.count % self.period:
            return
        r, o, n = self.rng, self.out, self.n
        k = self.kind
        if k in ('ef', 'ef_setup'):
            o.field[:] = r.standard_normal(o.field.shape)
            if k == 'ef':
                o.S0 = float(r.uniform(1, 9))
        elif k == 'rebind_ef':
            o.field = r.standard_normal(o.field.shape).astype(self.dtype)
        elif k == 'layer':
            o.field[:] = r.standard_normal(o.field.shape)
            o.height = float(r.uniform(0, 9000))
        elif k == 'intensity':
            o.i[:] = r.random(o.i.shape)
        elif k == 'pixels':
            o.pixels[:] = r.integers(0, 99, o.pixels.shape)
        elif k.startswith('slopes'):
            o.slopes[:] = r.standard_normal(o.slopes.shape)
        elif k in ('scalar', 'none_scalar'):
            o.value = self.dtype(r.standard_normal())
        elif k == 'text':
            o.value = {'a': float(r.random()), 'b': 'x' * int(r.integers(5))}
        elif k == 'none_array':
            o.value = r.standard_normal(n).astype(self.dtype)
        elif k == 'grow':
            o.value = r.standard_normal(int(r.integers(1, 4))).astype(self.dtype)
        elif k == 'view':
            self.buf[:] = r.standard_normal(self.buf.shape)
            o.value = self.buf[:, int(r.integers(3))]
        elif k == 'zerod':
            o.value[...] = r.standard_normal()
        elif k == 'fortran':
            o.value[:] = r.standard_normal(o.value.shape)
        else:
            o.value[:] = r.standard_normal(n)

    def post_trigger(self):
        super().post_trigger()
        if self.count % self.period == 0:
            self.out.generation_time = self.current_time


def describe(x):
    if x is None:
        return None
    d = {}
    v = x.get_value()
    d['value'] = None if v is None else (v if isinstance(v, (dict, str)) else (str(np.asarray(v).dtype), np.shape(v), np.asarray(v).tolist()))
    for k in ('S0', 'height', 'pixel_pitch', 'interleave', 'single_mask', 'display_map', 'bpp', 'signed', 'description'):
        if hasattr(x, k):
            a = getattr(x, k)
            d[k] = a.tolist() if isinstance(a, np.ndarray) else (float(a) if isinstance(a, (float, np.floating)) else a)
    return type(x).__name__, x.generation_time, d


class VerifEater(BaseProcessingObj):
    def __init__(self, target_device_idx: int = None, precision: int = None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self.inputs['a'] = InputValue(type=BaseDataObj, optional=True)
        self.inputs['b'] = InputValue(type=BaseDataObj, optional=True)
        self.inputs['lst'] = InputList(type=BaseDataObj, optional=True)
        self.out = BaseValue(value=np.zeros(2), target_device_idx=self.target_device_idx)
        self.outputs['out'] = self.out

    @classmethod
    def input_names(cls):
        return {k: InputDesc(BaseDataObj, 'anything (optional)') for k in ('a', 'b', 'lst')}

    @classmethod
    def output_names(cls):
        return {'out': OutputDesc(BaseValue, 'a value')}

    def setup(self):
        super().setup()
        self.kept = self.local_inputs['a']          # objects may keep the reference they had in setup

    def trigger_code(self):
        d = {k: [describe(x) for x in (v if isinstance(v, list) else [v])] for k, v in self.local_inputs.items()}
        LOG.append((self.name, self.current_time, d, self.kept is self.local_inputs['a']))
        self.out.value = np.array([self.current_time, 1.0])

    def post_trigger(self):
        super().post_trigger()
        self.out.generation_time = self.current_time
