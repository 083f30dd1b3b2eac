"""In-process stand-in for mpi4py: forked ranks talk through a router that delays, matches and records every message.

The router enforces the MPI rules the code relies on (per source/tag ordering, matching of pickled and buffer messages, sizes of
receive buffers, buffers that are contiguous) and keeps a ledger: sent, received, left pending, ranks blocked for ever.
"""
import os
import pickle
import sys
import time
import traceback
from multiprocessing import Pipe
from multiprocessing.connection import wait


class FabricError(RuntimeError):
    pass


class FakeComm:
    """the part of mpi4py's communicator interface used by the code under test"""

    def __init__(self, conn, rank, size):
        self._c, self._rank, self._size = conn, rank, size

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self._size

    def _ask(self, msg):
        self._c.send(msg)
        kind, payload = self._c.recv()
        if kind == 'err':
            raise FabricError(payload)
        return payload

    def barrier(self):
        self._ask(('barrier',))
    Barrier = barrier

    # pickled messages
    def _send(self, obj, dest, tag=0):
        self._c.send(('send', dest, tag, 'obj', pickle.dumps(obj), None))
    send = isend = bsend = ibsend = ssend = issend = lambda self, obj, dest, tag=0: self._send(obj, dest, tag)

    def recv(self, buf=None, source=None, tag=None, status=None):
        return pickle.loads(self._ask(('recv', source, tag, 'obj', None, None)))

    # buffer messages
    def _Send(self, buf, dest, tag=0):
        import numpy as np
        if not isinstance(buf, np.ndarray):
            raise TypeError(f'buffer interface not supported by {type(buf)}')
        if not (buf.flags.c_contiguous or buf.flags.f_contiguous):
            raise BufferError('ndarray is not contiguous')
        raw = buf.tobytes() if buf.flags.c_contiguous else buf.tobytes('F')
        self._c.send(('send', dest, tag, 'buf', raw, (str(buf.dtype), buf.shape)))
    Send = Isend = Bsend = Ibsend = lambda self, buf, dest, tag=0: self._Send(buf, dest, tag)

    def Recv(self, buf, source=None, tag=None, status=None):
        import numpy as np
        if not isinstance(buf, np.ndarray):
            raise TypeError(f'buffer interface not supported by {type(buf)}')
        if not (buf.flags.c_contiguous or buf.flags.f_contiguous):
            raise BufferError('ndarray is not contiguous')
        if not buf.flags.writeable:
            raise BufferError('receive buffer is read-only')
        raw = self._ask(('recv', source, tag, 'buf', None, (str(buf.dtype), buf.shape)))
        a = np.frombuffer(raw, dtype=buf.dtype)
        if buf.flags.c_contiguous:
            buf.reshape(-1)[:a.size] = a
        else:
            buf.T.reshape(-1)[:a.size] = a

    def bcast(self, obj, root=0):
        if self._rank == root:
            for r in range(self._size):
                if r != root:
                    self._send(obj, r, 10 ** 9)
            return obj
        return self.recv(source=root, tag=10 ** 9)


def _child(conn, rank, size, fn, args, workdir):
    """forked: fresh import of the package for this rank, through its public initialisation"""
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        for m in [m for m in sys.modules if m == 'specula' or m.startswith('specula.') or m.startswith('harness.') or m.startswith('checks')]:
            del sys.modules[m]
        import harness
        for k in ('sp', 'zoo', 'monitor', 'probes', 'mpi'):
            if hasattr(harness, k):
                delattr(harness, k)
        import specula
        comm = FakeComm(conn, rank, size)
        specula.init(-1, precision=args['precision'], rank=rank, comm=comm)
        os.chdir(workdir)
        res = fn(rank, comm, **args)
        conn.send(('done', res))
    except BaseException as e:
        tb = traceback.format_exc()
        try:
            conn.send(('died', f'{type(e).__name__}: {e}', tb))
        except Exception:
            pass
    finally:
        os._exit(0)


def run(fn, size, args, rng=None, maxdelay=0.0, timeout=90.0):
    """Run fn(rank, comm, **args) on *size* forked ranks. Returns a dict: results, errors, ledger, blocked."""
    conns, pids = [], []
    for r in range(size):
        a, b = Pipe()
        pid = os.fork()
        if pid == 0:
            for x in conns:
                x.close()
            a.close()
            _child(b, r, size, fn, args, os.getcwd())
        b.close()
        conns.append(a)
        pids.append(pid)
    box = {}            # (dest, source, tag) -> list of (ready time, kind, payload, meta, serial)
    waiting = {}        # rank -> request
    atbar = set()
    done, died = {}, {}
    sent = received = 0
    errors = []
    order = []          # order in which messages were delivered (source, dest, tag)
    t_end = time.time() + timeout
    live = set(range(size))
    while live:
        now = time.time()
        nxt = None
        progress = False
        # deliver
        for r in list(waiting):
            _, src, tag, kind, _, meta = waiting[r]
            q = box.get((r, src, tag))
            if not q:
                continue
            rt, k2, payload, meta2 = q[0]
            if rt > now:
                nxt = rt if nxt is None else min(nxt, rt)
                continue
            q.pop(0)
            del waiting[r]
            progress = True
            received += 1
            order.append((src, r, tag))
            if k2 != kind:
                errors.append(('kind-mismatch', f'rank {r} expects a {kind} message from rank {src} tag {tag}, but a {k2} message was sent'))
                conns[r].send(('err', errors[-1][1]))
                continue
            if kind == 'buf':
                import numpy as np
                n1, n2 = np.dtype(meta[0]).itemsize * int(np.prod(meta[1], dtype=int)), len(payload)
                if n1 != n2 or meta[0] != meta2[0]:
                    errors.append(('buffer-mismatch', f'rank {r} receives {meta2} from rank {src} tag {tag} into a buffer {meta}'))
                    conns[r].send(('err', errors[-1][1]))
                    continue
            conns[r].send(('ok', payload))
        if atbar and atbar == live:
            for r in atbar:
                conns[r].send(('ok', None))
            atbar = set()
            progress = True
        if progress:
            continue
        if nxt is None and (set(waiting) | atbar) == live:
            # every live rank is blocked and nothing is in flight
            ready = wait([conns[r] for r in live], timeout=0.0)
            if not ready:
                errors.append(('deadlock', 'all ranks blocked: ' + ', '.join(
                    [f'rank {r} waits for rank {w[1]} tag {w[2]} ({w[3]})' for r, w in sorted(waiting.items())] + [f'rank {r} at barrier' for r in sorted(atbar)]
                    + [f'rank {r} finished' for r in sorted(done)])))
                break
        if now > t_end:
            errors.append(('no-progress', f'not finished after {timeout} s; waiting: {sorted(waiting)}, at barrier: {sorted(atbar)}'))
            break
        for cn in wait([conns[r] for r in live], timeout=max(0.0, nxt - now) if nxt is not None else min(1.0, t_end - now + 0.01)):
            r = conns.index(cn)
            try:
                m = cn.recv()
            except EOFError:
                live.discard(r)
                waiting.pop(r, None)
                atbar.discard(r)
                if r not in done and r not in died:
                    died[r] = ('rank exited', '')
                continue
            if m[0] == 'send':
                _, dest, tag, kind, payload, meta = m
                sent += 1
                q = box.setdefault((dest, r, tag), [])
                rt = time.time() + (float(rng.exponential(maxdelay)) if maxdelay and rng.random() < 0.5 else 0.0)
                if q:
                    rt = max(rt, q[-1][0])      # non-overtaking
                q.append((rt, kind, payload, meta))
                if not 0 <= dest < size:
                    errors.append(('bad-destination', f'rank {r} sends to rank {dest}'))
            elif m[0] == 'recv':
                waiting[r] = m
            elif m[0] == 'barrier':
                atbar.add(r)
            elif m[0] == 'done':
                done[r] = m[1]
                live.discard(r)
            elif m[0] == 'died':
                died[r] = m[1:]
                live.discard(r)
                # a dead rank: the others cannot be expected to finish
        if died:
            break
    for r, pid in enumerate(pids):
        try:
            conns[r].close()
            if r not in done:
                os.kill(pid, 9)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    pending = {k: len(q) for k, q in box.items() if q}
    return dict(done=done, died=died, errors=errors, sent=sent, received=received, pending=pending, order=order)
