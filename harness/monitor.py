"""Online monitor of a running simulation: who changed what, and what every object published."""
import hashlib
import numpy as np
from harness import zoo


def public_digest(o):
    """digest of the public state of a data object (attributes without leading underscore + get_value())"""
    from specula.base_data_obj import BaseDataObj
    h = hashlib.blake2b(digest_size=10)
    seen = set()

    def feed(x, depth=0):
        if isinstance(x, BaseDataObj):
            if id(x) in seen or depth > 4:
                return
            seen.add(id(x))
            for k in sorted(vars(x)):
                if k.startswith('_') or k in zoo._SKIP or callable(vars(x)[k]):
                    continue
                h.update(k.encode())
                feed(vars(x)[k], depth + 1)
            try:
                gv = x.get_value()
            except Exception:
                gv = None
            feed(gv, depth + 1)
        elif isinstance(x, np.ndarray) and x.dtype != object:
            h.update(f'{x.shape}{x.dtype}'.encode())
            h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, (bool, int, float, complex, str, bytes, type(None), np.generic)):
            h.update(repr(x).encode())
        elif isinstance(x, (list, tuple)):
            h.update(f'L{len(x)}'.encode())
            for y in x:
                feed(y, depth + 1)
        elif isinstance(x, dict):
            for k, y in x.items():
                h.update(repr(k).encode())
                feed(y, depth + 1)
    feed(o)
    return h.hexdigest()


class Monitor:
    """Attached just before the loop starts; wraps the phase methods of every object."""

    def __init__(self, isolation=True, record=True):
        self.isolation, self.record = isolation, record
        self.changes = []            # illegal changes
        self.log = {}                # object name -> [(t, {out: digest})]
        self.values = {}             # object name -> [(t, {out: array})] if keep_values
        self.keep_values = False
        self.calls = 0
        self.now = {}

    def _targets(self):
        from specula.base_data_obj import BaseDataObj
        tg = {}
        for nm, o in self.objs.items():
            if isinstance(o, BaseDataObj):
                tg.setdefault(id(o), (o, (nm, None), set()))
        for nm, o in self.objs.items():
            for k, v in getattr(o, 'outputs', {}).items():
                for i, x in enumerate(v if isinstance(v, list) else [v]):
                    if x is None:
                        continue
                    e = tg.setdefault(id(x), (x, (nm, k), set()))
                    e[2].add(nm)
        return tg

    def snap(self):
        return {i: public_digest(x) for i, (x, w, own) in self.tg.items()}

    def _wrap(self, nm, obj, meth):
        orig = getattr(obj, meth)

        def wrapped(*a, **kw):
            self.calls += 1
            r = orig(*a, **kw)
            if self.isolation:
                new = self.snap()
                may = meth in ('setup', 'trigger', 'post_trigger', 'finalize') or obj.inputs_changed
                for i, d in new.items():
                    if d != self.now.get(i):
                        x, where, own = self.tg[i]
                        if nm not in own or not may:
                            self.changes.append((nm, meth, where, getattr(obj, 'current_time', None), type(x).__name__, type(obj).__name__))
                self.now = new
            if self.record and meth == 'post_trigger':
                outs = {k: [(public_digest(x), x.generation_time) for x in (v if isinstance(v, list) else [v])] for k, v in obj.outputs.items()}
                self.log.setdefault(nm, []).append((obj.current_time, outs))
                if self.keep_values:
                    self.values.setdefault(nm, []).append((obj.current_time, {k: [np.array(x.get_value(), copy=True) if hasattr(x, 'get_value') and x.get_value() is not None else None
                                                                              for x in (v if isinstance(v, list) else [v])] for k, v in obj.outputs.items()}))
            return r
        setattr(obj, meth, wrapped)

    def attach(self, objs):
        from specula.base_processing_obj import BaseProcessingObj
        self.objs = dict(objs)
        self.tg = self._targets()
        self.now = self.snap()
        meths = ('setup', 'check_ready', 'trigger', 'post_trigger', 'finalize') if self.isolation else ('post_trigger',)
        for nm, o in self.objs.items():
            if isinstance(o, BaseProcessingObj):
                for m in meths:
                    self._wrap(nm, o, m)


def run_monitored(params, name='params.yml', isolation=True, record=True, keep_values=False, **kw):
    """Run a simulation with the monitor attached. Returns (simul, monitor)."""
    from specula.simul import Simul
    from specula.loop_control import LoopControl
    from harness import sp
    files = params if isinstance(params, list) else [sp.write_yml(params, name)]
    s = Simul(*files, speed_report=False, **kw)
    mon = Monitor(isolation, record)
    mon.keep_values = keep_values
    orig = LoopControl.start

    def start(self, *a, **k):
        mon.attach(s.objs)
        return orig(self, *a, **k)
    LoopControl.start = start
    try:
        with sp.quiet():
            s.run()
    finally:
        LoopControl.start = orig
    return s, mon
