"""Self-tests of the simulator (not a check; run by hand).

  selftest.py determinism [N]   every check, N seeds, executed in two processes
                                with different hash seeds: equal logs?
  selftest.py pools             the same pool scripts under the real CPython
                                pools and under the simulated ones
  selftest.py library           real create_MV_ss with real worker processes
                                against the simulated result
"""
import json
import os
import signal
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


# -- determinism ------------------------------------------------------------

def determinism_child(n):
    from sim import props, target, driver
    target.load()
    for pid, chk in sorted(props.CHECKS.items()):
        for i in range(n):
            plan = chk.plan('9:%d' % i, 'quick', None)
            out = driver.run_one(lambda: props.execute(plan))
            o = out[1] if out[0] == 'ok' else {'log': out, 'st': {}, 'v': 0}
            print(json.dumps([pid, i, o['log'], o['v'], o['st'].get('lines'),
                              o['st'].get('vtime'), o['st'].get('faults'),
                              o.get('xkey')]), flush=True)


def determinism(n):
    ps = []
    for h in ('0', '1', '31337'):
        env = dict(os.environ, PYTHONHASHSEED=h, OMP_NUM_THREADS='1')
        ps.append(subprocess.Popen(
            [sys.executable, __file__, '_det', str(n)], env=env,
            stdout=subprocess.PIPE, text=True))
    outs = [p.communicate()[0].splitlines() for p in ps]
    bad = 0
    for rows in zip(*outs):
        if len(set(rows)) != 1:
            bad += 1
            print('DIFFERS', *rows, sep='\n  ')
    print('%d runs x %d processes, %d differ' % (len(outs[0]), len(outs),
                                                 bad))
    return bad or len(set(map(len, outs))) != 1


# -- pools ------------------------------------------------------------------

def f_ok(x):
    return x * x


def f_fail(x):
    if x == 5:
        raise KeyError('five')
    return x


def f_die(x):
    if x == 5:
        os.kill(os.getpid(), signal.SIGKILL)
    return x


def f_exit(x):
    if x == 5:
        raise SystemExit(3)
    return x


def f_unpicklable(x):
    return (lambda: x) if x == 5 else x


G = []


def f_state(x):
    G.append(x)
    return len(G) <= 100


def init(v):
    G.append(v)


def f_init(x):
    return G[0]


def scripts():
    import multiprocessing as mp
    import concurrent.futures as cf

    def pool(fn, how, **kw):
        def run():
            with mp.Pool(2, **kw) as p:
                if how == 'map':
                    return p.map(fn, range(10))
                if how == 'imap':
                    return list(p.imap(fn, range(10)))
                if how == 'unordered':
                    return sorted(p.imap_unordered(fn, range(10)))
                if how == 'star':
                    return p.starmap(pow, [(2, i) for i in range(8)])
                if how == 'async':
                    return [r.get() for r in
                            [p.apply_async(fn, (i,)) for i in range(7)]]
                if how == 'timeout':
                    return p.map_async(fn, range(10)).get(2)
        return run

    def ex(fn, how, **kw):
        def run():
            with cf.ProcessPoolExecutor(2, **kw) as p:
                if how == 'map':
                    return list(p.map(fn, range(10)))
                if how == 'chunk':
                    return list(p.map(fn, range(10), chunksize=3))
                if how == 'submit':
                    return [f.result() for f in
                            [p.submit(fn, i) for i in range(10)]]
                if how == 'completed':
                    return sorted(f.result() for f in cf.as_completed(
                        [p.submit(fn, i) for i in range(10)]))
                if how == 'wait':
                    d, n = cf.wait([p.submit(fn, i) for i in range(10)])
                    return len(d), len(n)
        return run

    def after_close():
        p = mp.Pool(2)
        p.close()
        return p.map(f_ok, [1])

    def after_shutdown():
        p = cf.ProcessPoolExecutor(2)
        p.shutdown()
        return p.submit(f_ok, 1)

    def close_join():
        p = mp.Pool(2)
        r = p.map_async(f_ok, range(6))
        p.close()
        p.join()
        return r.get()
    out = {}
    for h in ('map', 'imap', 'unordered', 'async', 'star'):
        out['pool ok ' + h] = pool(f_ok, h)
    for h in ('map', 'imap', 'async'):
        out['pool fail ' + h] = pool(f_fail, h)
        out['pool unpicklable ' + h] = pool(f_unpicklable, h)
    out['pool die'] = pool(f_die, 'timeout')
    out['pool exit'] = pool(f_exit, 'timeout')
    out['pool init'] = pool(f_init, 'map', initializer=init, initargs=(7,))
    for h in ('map', 'chunk', 'submit', 'completed', 'wait'):
        out['exec ok ' + h] = ex(f_ok, h)
    for h in ('map', 'chunk', 'submit', 'completed'):
        out['exec fail ' + h] = ex(f_fail, h)
        out['exec die ' + h] = ex(f_die, h)
        out['exec exit ' + h] = ex(f_exit, h)
        out['exec unpicklable ' + h] = ex(f_unpicklable, h)
    out['exec init'] = ex(f_init, 'map', initializer=init, initargs=(7,))
    out['after close'] = after_close
    out['after shutdown'] = after_shutdown
    out['close join'] = close_join
    return out


def outcomes(sim):
    res = {}
    if sim:
        from sim import core, pools, props, target
        target.load()
    for name, fn in scripts().items():
        del G[:]
        if sim:
            s = props.open_sim({'seed': 3, 'cpus': 2})
        try:
            r = repr(fn())
        except BaseException as e:
            r = type(e).__name__
        if sim:
            props.close_sim(s)
        res[name] = r
    return res


def pools_test():
    real = json.loads(subprocess.run(
        [sys.executable, __file__, '_pools', 'real'], text=True,
        capture_output=True, timeout=300).stdout.splitlines()[-1])
    sim = json.loads(subprocess.run(
        [sys.executable, __file__, '_pools', 'sim'], text=True,
        capture_output=True, timeout=300).stdout.splitlines()[-1])
    bad = 0
    for k in real:
        if real[k] != sim[k]:
            bad += 1
            print('DIFFERS %s: real %s, simulated %s' % (
                k, real[k], sim[k]))
    print('%d scripts, %d differ' % (len(real), bad))
    return bad


# -- library ----------------------------------------------------------------

def library_child(mode, n):
    import random
    from sim import props, target, workload
    from sim.core import Sim
    import io
    if mode == 'real':
        from sim import core, pools
        core.install_process_seams = lambda: None
        pools.install_pool_seams = lambda: None
    target.load()
    for i in range(n):
        spec = workload.make_spec(random.Random('lib%d' % i), max_cost=150)
        so, sys.stdout = sys.stdout, io.StringIO()
        if mode == 'sim':
            s = props.open_sim({'seed': i, 'cpus': 1 + i % 4, 'jitter': 2})
        S = target.op_mv(spec)
        text = sys.stdout.getvalue().split('Total')[0]
        sys.stdout = so
        if mode == 'sim':
            props.close_sim(s)
        print(json.dumps([i, target.ss_parts(S), text if mode == 'real'
                          else text]), flush=True)


def library(n=40):
    outs = []
    for m in ('real', 'sim'):
        outs.append(subprocess.run(
            [sys.executable, __file__, '_lib', m, str(n)], text=True,
            stdout=subprocess.PIPE, timeout=1200).stdout.splitlines())
    bad = sum(a != b for a, b in zip(*outs))
    print('%d inputs, %d differ' % (len(outs[0]), bad))
    return bad or len(outs[0]) != n or len(outs[1]) != n


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'determinism':
        sys.exit(bool(determinism(int(a[1]) if len(a) > 1 else 12)))
    if a[0] == '_det':
        determinism_child(int(a[1]))
    if a[0] == 'pools':
        sys.exit(bool(pools_test()))
    if a[0] == '_pools':
        print(json.dumps(outcomes(a[1] == 'sim')))
    if a[0] == 'library':
        sys.exit(bool(library()))
    if a[0] == '_lib':
        library_child(a[1], int(a[2]))
