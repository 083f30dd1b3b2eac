"""Helpers to drive SPECULA objects through their public protocol (imported inside workers,
after specula.init)."""
import numpy as np


IN_PLACE = [False]        # set by the harness for every second case
_VAL = []


def _val_class():
    """BaseValue whose arrays are either replaced or overwritten at every update: upstream objects do both."""
    if not _VAL:
        import numpy as np
        from specula.base_value import BaseValue

        class Value(BaseValue):
            def __setattr__(self, name, new):
                if name == 'value' and IN_PLACE[0] and isinstance(new, np.ndarray) and new.ndim:
                    old = self.__dict__.get('value')
                    if isinstance(old, np.ndarray) and old.shape == new.shape and old.dtype == new.dtype:
                        old[...] = new
                        return
                    new = new.copy()
                object.__setattr__(self, name, new)
        Value.__name__ = Value.__qualname__ = 'BaseValue'
        _VAL.append(Value)
    return _VAL[0]


def val(arr, t=None, **kw):
    v = _val_class()(value=arr, target_device_idx=-1, **kw)
    if t is not None:
        v.generation_time = t
    return v


def setval(v, arr, t):
    v.value = arr
    v.generation_time = t


def step(obj, t):
    """One simulation step of a single object at integer time t; True if it ran."""
    obj.check_ready(t)
    if not obj.inputs_changed:
        return False
    obj.trigger()
    obj.post_trigger()
    return True


def arr(x):
    return np.array(x, copy=True)


def simul_params(**kw):
    from specula.data_objects.simul_params import SimulParams
    d = dict(pixel_pupil=16, pixel_pitch=0.1, time_step=0.001, total_time=0.01)
    d.update(kw)
    return SimulParams(**d)


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def loop_run(objs, nsteps, dt=1_000_000, hook=None):
    """Minimal step loop for an already ordered list of objects (three phases per object)."""
    t = 0
    for _ in range(nsteps):
        for o in objs:
            step(o, t)
        if hook:
            hook(t)
        t += dt


def quiet():
    import contextlib, io
    return contextlib.redirect_stdout(io.StringIO())


def write_yml(params, name='params.yml'):
    import yaml
    with open(name, 'w') as f:
        yaml.safe_dump(params, f, sort_keys=False)
    return name


def main_params(nsteps=5, dt=0.001, **kw):
    d = {'class': 'SimulParams', 'root_dir': '.', 'time_step': dt, 'total_time': nsteps * dt,
         'pixel_pupil': 16, 'pixel_pitch': 0.1, 'add_modules': ['harness.probes']}
    d.update(kw)
    return d


def run_simul(params, name='params.yml', **kw):
    """Run a complete simulation from a parameter dictionary (or list of file names)."""
    from specula.simul import Simul
    files = params if isinstance(params, list) else [write_yml(params, name)]
    s = Simul(*files, speed_report=False, **kw)
    with quiet():
        s.run()
    return s
