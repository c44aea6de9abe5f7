"""Settings of the process that a library call has to leave alone."""
import decimal
import gc
import hashlib
import logging
import multiprocessing
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import threading
import warnings

from . import target

SIGNALS = [signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1,
           signal.SIGCHLD, signal.SIGPIPE, signal.SIGHUP]


def _handler(sig, frame):
    pass


def draw(r):
    """Settings a caller may have chosen; none of them tightens a limit."""
    return {
        'err': {k: r.choice(['ignore', 'warn'])
                for k in ('divide', 'over', 'under', 'invalid')},
        'print': {'precision': r.choice([2, 8, 17]),
                  'threshold': r.choice([5, 1000]),
                  'linewidth': r.choice([40, 75, 200]),
                  'suppress': r.random() < .5,
                  'edgeitems': r.choice([1, 3])},
        'recursion': r.choice([1000, 1500, 4000]),
        'gc': [r.random() < .7, r.choice([700, 200, 5000])],
        'warnings': r.choice(['default', 'ignore', 'always', 'once']),
        'signals': r.sample([int(s) for s in SIGNALS if s not in (
            signal.SIGCHLD, signal.SIGPIPE)], r.choice([0, 1, 2])),
        'umask': r.choice([0o022, 0o027, 0o077]),
        'prec': r.choice([28, 9, 50]),
        'interval': r.choice([.005, .001]),
        'env': r.choice([None, '1', '7']),
    }


class Ambient:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='permaviss-sim-')
        self.cwd = os.getcwd()
        os.chdir(self.dir)
        os.environ['TMPDIR'] = self.dir
        tempfile.tempdir = self.dir
        multiprocessing.get_start_method()   # fixes the default

    def close(self):
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)

    def apply(self, s):
        np = target.T['np']
        np.seterr(**s['err'])
        np.set_printoptions(**s['print'])
        sys.setrecursionlimit(s['recursion'])
        (gc.enable if s['gc'][0] else gc.disable)()
        gc.set_threshold(s['gc'][1])
        warnings.resetwarnings()
        warnings.simplefilter(s['warnings'])
        for g in SIGNALS:
            signal.signal(g, _handler if int(g) in s['signals'] else
                          signal.SIG_DFL if g != signal.SIGINT else
                          signal.default_int_handler)
        os.umask(s['umask'])
        decimal.getcontext().prec = s['prec']
        sys.setswitchinterval(s['interval'])
        if s['env'] is None:
            os.environ.pop('OMP_NUM_THREADS', None)
        else:
            os.environ['OMP_NUM_THREADS'] = s['env']
        for f in os.listdir(self.dir):       # from an earlier run
            p = os.path.join(self.dir, f)
            (shutil.rmtree if os.path.isdir(p) and not os.path.islink(p)
             else os.remove)(p)
        os.chdir(self.dir)

    def snapshot(self, rng=True):
        np = target.T['np']
        mask = os.umask(0)
        os.umask(mask)
        out = {
            "numpy's error handling": [np.geterr(), repr(np.geterrcall())],
            "numpy's print options": {
                k: repr(v) for k, v in np.get_printoptions().items()},
            'the recursion limit': sys.getrecursionlimit(),
            'the thread switch interval': sys.getswitchinterval(),
            'the garbage collector': [gc.isenabled(), gc.get_threshold()],
            'the warning filters': [repr(f) for f in warnings.filters],
            'the display of warnings': repr(warnings.showwarning),
            'signal handlers': [repr(signal.getsignal(g)) for g in SIGNALS],
            'blocked signals': sorted(map(int, signal.pthread_sigmask(
                signal.SIG_BLOCK, []))),
            'timers': [signal.getitimer(k)[0] > 0 for k in (
                signal.ITIMER_REAL, signal.ITIMER_VIRTUAL,
                signal.ITIMER_PROF)],
            'the working directory': os.getcwd(),
            'environment variables': dict(os.environ),
            'the file mode mask': mask,
            'the decimal precision': decimal.getcontext().prec,
            'the start method of processes':
                multiprocessing.get_start_method(),
            'standard streams': [id(sys.stdout), id(sys.stderr),
                                 id(sys.stdin)],
            'exception and trace hooks': [
                id(sys.excepthook), id(threading.excepthook),
                repr(sys.gettrace()), repr(sys.getprofile())],
            'the import path': list(sys.path),
            'logging': [logging.root.level, len(logging.root.handlers),
                        logging.root.manager.disable],
            'resource limits': [resource.getrlimit(k) for k in (
                resource.RLIMIT_AS, resource.RLIMIT_NOFILE,
                resource.RLIMIT_CPU, resource.RLIMIT_STACK,
                resource.RLIMIT_CORE)],
            'CPU affinity and priority': [
                sorted(os.sched_getaffinity(0)),
                os.getpriority(os.PRIO_PROCESS, 0)],
            'files in the working or temporary directory': sorted(
                os.path.join(d[len(self.dir):], f)
                for d, ds, fs in os.walk(self.dir) for f in ds + fs),
            'open files': self.files(),
        }
        if rng:
            h = hashlib.sha256
            st = np.random.get_state()
            out['the global random streams'] = [
                h(st[1].tobytes() + repr(st[2:]).encode()).hexdigest(),
                h(repr(random.getstate()).encode()).hexdigest()]
        return out

    @staticmethod
    def files():
        out = []
        for f in os.listdir('/proc/self/fd'):
            try:
                t = os.readlink('/proc/self/fd/' + f)
            except OSError:
                continue
            if t.startswith('/') and not t.startswith(('/proc/', '/dev/')):
                out.append(t)
        return sorted(out)


def changed(a, b):
    """-> None or what differs"""
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict):
                ks = sorted(q for q in set(x) | set(y)
                            if x.get(q) != y.get(q))
                x, y = ({q: d.get(q) for q in ks} for d in (x, y))
            return '%s changed (%.80s, before %.80s)' % (k, y, x)
    return None
