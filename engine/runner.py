"""Decides one property: runs its harnesses symbolically, replays
counterexamples against the real code, validates the encoding against the real
code and writes the evidence."""
import argparse
import json
import os
import pickle
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
NPROC = int(os.environ.get('VP_JOBS', '0')) or (os.cpu_count() or 4)


# ------------------------------------------------------------ worker side
class FnTracer:
    """names of /repo functions entered (sys.monitoring, one event per function)"""

    def __init__(self):
        self.seen = set()
        self.tool = 4

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.tool, 'vp')
        except ValueError:
            return
        pre = REPO.rstrip('/') + '/'

        def on(code, off):
            if code.co_filename.startswith(pre):
                self.seen.add('%s:%s' % (code.co_filename[len(pre):], code.co_qualname))
            return mon.DISABLE
        mon.register_callback(self.tool, mon.events.PY_START, on)
        mon.set_events(self.tool, mon.events.PY_START)

    def stop(self):
        mon = sys.monitoring
        try:
            mon.set_events(self.tool, 0)
            mon.free_tool_id(self.tool)
        except ValueError:
            pass


def run_task(env, h, cfg, seed, tier):
    from . import core
    R, exs = env['R'], env['executors']
    if h.opts.get('fused') or cfg.get('fused'):
        R.libcpp.__dict__['_ex'] = exs[1]
    else:
        R.libcpp.__dict__['_ex'] = exs[0]
    ex = R.libcpp._ex
    ex.called = {}
    opts = dict(h.opts)
    opts.update(cfg.get('_opts', {}))
    opts.setdefault('budget_s', 60 if tier == 'quick' else 600)
    opts.setdefault('seed', seed)
    opts['cfg'] = {k: v for k, v in cfg.items() if k != '_opts'}
    opts['R'] = R
    tr = FnTracer()
    tr.start()
    try:
        res = core.explore(h.fn, opts)
    finally:
        tr.stop()
    res['functions'] = sorted(tr.seen)
    res['cpp_functions'] = sorted(k[1:].strip('"') for k in ex.called)
    # concrete runs of the encoding, compared later with the real code
    val = []
    rng = random.Random('%s/%s/%s' % (seed, h.name, json.dumps(opts['cfg'], sort_keys=True, default=str)))
    nsamp = opts.get('samples', 1)
    todo = [(w, None) for w in res['witnesses'][:opts.get('max_witnesses', 2)]]
    todo += [({}, rng.randint(0, 1 << 30)) for _ in range(nsamp)]
    t0 = time.time()
    for inputs, r in todo:
        if time.time() - t0 > opts.get('sample_s', 20):
            break
        R.restart()
        ctx = core.ConCtx(inputs, opts['cfg'], R=R, engine=True, slack=4.0,
                          rng=random.Random(r) if r is not None else None)
        try:
            val.append(core.run_concrete(h.fn, ctx))
        except Exception as e:
            val.append({'status': 'unsupported', 'error': repr(e)})
    res['validation'] = val
    return res


# ------------------------------------------------------------ scheduler
class Job:
    def __init__(self, idx, h, cfg, hard):
        self.idx, self.h, self.cfg, self.hard = idx, h, cfg, hard
        self.pid = self.fd = None
        self.buf = b''
        self.t0 = None
        self.res = None


def run_jobs(env, jobs, seed, tier, deadline, nproc):
    from .realside import clean
    queue = list(jobs)
    running = []
    while queue or running:
        while queue and len(running) < nproc and time.time() < deadline:
            j = queue.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    os.setsid()
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    if not os.environ.get('VP_DEBUG'):
                        os.dup2(devnull, 1)
                        os.dup2(devnull, 2)
                    import resource
                    lim = 5 << 30
                    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
                    sys.setrecursionlimit(20000)
                    try:
                        res = run_task(env, j.h, j.cfg, seed, tier)
                    except MemoryError:
                        res = {'error': 'out of memory'}
                    except BaseException as e:
                        res = {'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-3000:]}
                    data = json.dumps(clean(res), default=str).encode()
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(w)
            j.pid, j.fd, j.t0 = pid, r, time.time()
            running.append(j)
        if time.time() >= deadline:
            for j in queue:
                j.res = {'error': 'not started: time budget of the check'}
            queue = []
        if not running:
            continue
        fds = [j.fd for j in running]
        rd, _, _ = select.select(fds, [], [], 1.0)
        now = time.time()
        for j in list(running):
            if j.fd in rd:
                d = os.read(j.fd, 1 << 20)
                if d:
                    j.buf += d
                    continue
                os.close(j.fd)
                os.waitpid(j.pid, 0)
                running.remove(j)
                try:
                    j.res = json.loads(j.buf)
                except ValueError:
                    j.res = {'error': 'worker died'}
                j.res['task_s'] = now - j.t0
            elif now - j.t0 > j.hard or now > deadline + 20:
                try:
                    os.killpg(j.pid, signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(j.pid, signal.SIGKILL)
                    except OSError:
                        pass
                os.close(j.fd)
                os.waitpid(j.pid, 0)
                running.remove(j)
                j.res = {'error': 'hard time limit', 'task_s': now - j.t0}


# ------------------------------------------------------------ real side
class RealSide:
    def __init__(self, ext, env=None):
        e = dict(os.environ)
        e.update(env or {})
        e['PYTHONDONTWRITEBYTECODE'] = '1'
        e['MPLBACKEND'] = 'Agg'
        self.ext, self.env = ext, e
        self.p = None
        self.err = None

    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, 'realside.py'), self.ext], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, env=self.env, start_new_session=True)

    def run(self, task, timeout=60):
        """result dict, or {'status': 'crashed'|'timeout', ...}"""
        if self.p is None:
            self.start()
        from .realside import clean
        try:
            self.p.stdin.write((json.dumps(clean(task)) + '\n').encode())
            self.p.stdin.flush()
        except OSError:
            pass
        buf = b''
        t0 = time.time()
        fd = self.p.stdout.fileno()
        while True:
            left = timeout - (time.time() - t0)
            if left <= 0:
                self.stop()
                return {'status': 'timeout'}
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                continue
            d = os.read(fd, 1 << 20)
            if not d:
                self.p.wait()
                rc = self.p.returncode
                self.err.seek(0)
                e = self.err.read().decode(errors='replace')
                self.stop()
                return {'status': 'crashed', 'rc': rc, 'stderr': e[-4000:]}
            buf += d
            if buf.endswith(b'\n'):
                try:
                    return json.loads(buf)
                except ValueError:
                    return {'status': 'crashed', 'rc': None, 'stderr': 'bad reply'}

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None


class Builder:
    """real extension built in a scratch folder, on demand"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vp_ext_')
        self.jobs = {}

    def start(self, asan=False):
        from . import build_ext
        if asan not in self.jobs:
            self.jobs[asan] = build_ext.start(self.dir, asan)

    def get(self, asan=False):
        self.start(asan)
        out, p = self.jobs[asan]
        rc = p.wait()
        if rc != 0 or not os.path.exists(out):
            with open(out + '.log') as f:
                return None, f.read()[-2000:]
        return out, None

    def close(self):
        for out, p in self.jobs.values():
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


ASAN_ENV = None


def asan_env():
    global ASAN_ENV
    if ASAN_ENV is None:
        pre = []
        for lib in ('libasan.so', 'libubsan.so', 'libstdc++.so'):
            p = subprocess.run(['g++', '-print-file-name=' + lib], capture_output=True, text=True).stdout.strip()
            if os.path.isabs(p):
                pre.append(p)
        ASAN_ENV = {'LD_PRELOAD': ':'.join(pre),
                    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0',
                    'UBSAN_OPTIONS': 'halt_on_error=1:print_stacktrace=0', 'PYTHONMALLOC': 'malloc'}
    return ASAN_ENV


def replay(task, builder, log=lambda *a: None):
    """True when the counterexample fails on the real code; (bool, text)"""
    ext, err = builder.get()
    if ext is None:
        return None, 'the extension does not build: ' + err
    rs = RealSide(ext)
    r = rs.run(task, timeout=120)
    rs.stop()
    if r['status'] == 'failed':
        return True, '; '.join('%s (%s)' % tuple(f) for f in r['failures'])
    if r['status'] == 'crashed':
        return True, 'the process running the code died (return code %s)' % r.get('rc')
    if r['status'] == 'timeout':
        return True, 'the code did not return within 120 s'
    if 'CppUB' in task.get('detail', ''):
        ext2, err = builder.get(asan=True)
        if ext2 is not None:
            rs = RealSide(ext2, asan_env())
            r2 = rs.run(task, timeout=120)
            rs.stop()
            if r2['status'] == 'crashed':
                e = r2.get('stderr', '')
                for l in e.split('\n'):
                    if 'ERROR: AddressSanitizer' in l or 'runtime error:' in l:
                        return True, l.strip()
                return True, 'sanitizer build died (%s)' % r2.get('rc')
            if r2['status'] == 'failed':
                return True, '; '.join('%s (%s)' % tuple(f) for f in r2['failures'])
        # uninitialised data: the outcome depends on what malloc returned
        outs = []
        for v in ('85', '170', '254'):
            rs = RealSide(ext, {'MALLOC_PERTURB_': v})
            q = rs.run(task, timeout=120)
            rs.stop()
            if q['status'] in ('crashed', 'failed'):
                return True, 'with MALLOC_PERTURB_=%s: %s' % (v, q.get('failures') or q['status'])
            outs.append(json.dumps(q.get('trace')))
        if len(set(outs)) > 1:
            return True, 'the result depends on uninitialised memory (MALLOC_PERTURB_)'
    return False, r['status']


def close_trace(a, b):
    if len(a) != len(b):
        return 'different number of observations (%d / %d)' % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        x, y = float(x), float(y)
        if x == y or (x != x and y != y):
            continue
        if not abs(x - y) <= 2e-3 * max(1.0, abs(x), abs(y)):
            return 'observation %d: %r / %r' % (i, x, y)
    return None


def load_known(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get('findings', []) if k['property'] == pid]


def matches_known(k, v):
    if k['harness'] != v['h']:
        return False
    if 'label' in k and k['label'] != v['label']:
        return False
    for n, x in k.get('cfg', {}).items():
        if v['cfg'].get(n) != x:
            return False
    return True


def demangle(names):
    if not names:
        return []
    try:
        r = subprocess.run(['c++filt', '-p'], input='\n'.join(names), capture_output=True, text=True, timeout=20)
        return sorted(set(x for x in r.stdout.split('\n') if x and not x.startswith(('std::', 'vp_', '__'))
                          and 'pybind11' not in x))
    except Exception:
        return names


def check(pid, tier, seed, only=None, verbose=False, jobs=None):
    t0 = time.time()
    from . import core, cppsym, loader, registry
    builder = Builder()
    try:
        builder.start()
        texts = []
        registry_err = None
        try:
            ex0 = cppsym.Executor(cppsym.compile_ir(False))
            ex1 = None
            R = loader.load_symbolic(ex0)
        except core.Control as e:
            print('ERROR: cannot encode the code: %s' % e)
            return 2
        registry.load_all()
        hs = registry.of_property(pid)
        if only:
            hs = [h for h in hs if h.name in only]
        if not hs:
            print('ERROR: no harness for property %s' % pid)
            return 2
        if any(h.opts.get('fused') or any(c.get('fused') for c in registry.configs(h, tier)) for h in hs):
            ex1 = cppsym.Executor(cppsym.compile_ir(True), fused=True)
        env = {'R': R, 'executors': [ex0, ex1]}
        jl = []
        for h in hs:
            for c in registry.configs(h, tier):
                b = c.get('_opts', {}).get('budget_s', h.opts.get('budget_s', 60 if tier == 'quick' else 600))
                jl.append(Job(len(jl), h, c, b * 1.5 + 60))
        jl.sort(key=lambda j: -j.cfg.get('_opts', {}).get('weight', j.h.opts.get('weight', 0)))
        total = float(os.environ.get('VP_DEADLINE', '600' if tier == 'quick' else '7200'))
        setup_s = time.time() - t0
        run_jobs(env, jl, seed, tier, t0 + total, jobs or NPROC)
        jl.sort(key=lambda j: j.idx)
        return finish(pid, tier, seed, hs, jl, builder, t0, setup_s, verbose)
    finally:
        builder.close()


def finish(pid, tier, seed, hs, jl, builder, t0, setup_s, verbose):
    from . import core
    from .realside import clean
    st = core.Stats()
    viol, inconc = [], []
    per = {}
    funcs, cfuncs = set(), set()
    decided = 0
    nval = nmis = ninf = nprobe = 0
    probed = []
    samples = []
    ext, err = builder.get()
    rs = RealSide(ext) if ext else None
    mism = []
    for j in jl:
        r = j.res
        p = per.setdefault(j.h.name, {'configs': 0, 'decided': 0, 'paths': 0, 'queries': 0, 'checks': 0, 'solver_s': 0.0,
                                      'cpu_s': 0.0})
        p['configs'] += 1
        cfg = {k: v for k, v in j.cfg.items() if k != '_opts'}
        if 'error' in r:
            inconc.append('%s %s: %s' % (j.h.name, cfg, r['error']))
            if verbose and r.get('tb'):
                print(r['tb'])
            continue
        st.merge(r['stats'])
        p['paths'] += r['stats']['paths']
        p['queries'] += r['stats']['queries']
        p['checks'] += r['stats']['checks']
        p['solver_s'] = round(p['solver_s'] + r['stats']['solver_s'], 2)
        p['cpu_s'] = round(p['cpu_s'] + r['task_s'], 2)
        funcs.update(r['functions'])
        cfuncs.update(r['cpp_functions'])
        for v in r['violations']:
            viol.append({'property': pid, 'h': j.h.name, 'cfg': cfg, 'inputs': v['inputs'], 'label': v['label'],
                         'detail': v['detail'], 'slack': 0.5, 'job': j.idx})
        for x in r['inconclusive']:
            inconc.append('%s %s: %s' % (j.h.name, cfg, x))
        ok = r['complete'] and not r['inconclusive']
        # the encoding against the real code, on concrete inputs
        bad = None
        if rs is not None and not r['violations']:
            for v in r.get('validation', []):
                if v['status'] in ('unsupported',):
                    continue
                task = {'h': j.h.name, 'cfg': cfg, 'inputs': v['inputs'], 'slack': 4.0}
                q = rs.run(task, timeout=60)
                if q['status'] in ('failed', 'crashed', 'timeout') and len(probed) < 6:
                    probed.append({'property': pid, 'h': j.h.name, 'cfg': cfg, 'inputs': v['inputs'], 'label': 'concrete run',
                                   'detail': '', 'slack': 4.0, 'job': j.idx})
                if q['status'] != v['status']:
                    bad = '%s on the real code, %s on the encoding: %s' % (
                        q['status'], v['status'], q.get('failures') or v.get('failures') or q.get('stderr', '')[-300:])
                elif v['status'] == 'infeasible':
                    ninf += 1
                    continue
                elif v['status'] == 'ok':
                    bad = close_trace(v['trace'], q['trace'])
                if bad:
                    mism.append({'h': j.h.name, 'cfg': cfg, 'inputs': v['inputs'], 'why': bad})
                    break
                nval += 1
                if len(samples) < 6 and (not samples or samples[-1]['harness'] != j.h.name):
                    samples.append({'harness': j.h.name, 'config': cfg, 'inputs': dict(list(v['inputs'].items())[:24]),
                                    'observations': v['trace'][:12], 'outcome': v['status']})
        # inputs chosen by the solver on paths the encoding could not finish
        if rs is not None and not r['violations']:
            for k, inp in enumerate(r.get('probes', [])[:24]):
                if len(probed) >= 6 or time.time() - t0 > 700:
                    break
                task = {'h': j.h.name, 'cfg': cfg, 'inputs': inp, 'slack': 4.0, 'rng': seed * 1000 + k}
                q = rs.run(task, timeout=60)
                if q['status'] in ('failed', 'crashed', 'timeout'):
                    probed.append({'property': pid, 'h': j.h.name, 'cfg': cfg, 'inputs': q.get('inputs', inp),
                                   'label': 'concrete run', 'detail': '', 'slack': 4.0, 'job': j.idx})
                elif q['status'] == 'ok' and q.get('checks'):
                    nprobe += 1
        if bad:
            nmis += 1
            inconc.append('%s %s: encoding and real code disagree: %s' % (j.h.name, cfg, bad))
            ok = False
        if ok and not r['violations']:
            decided += 1
            p['decided'] += 1
    if rs is not None:
        rs.stop()
    if err:
        inconc.append('the extension does not build: ' + err[-500:])

    # counterexamples: only those which fail on the real code are reported
    viol.extend(probed)
    known = load_known(pid)
    confirmed, knownhit = [], {}
    seen = set()
    tried = 0
    for v in viol:
        key = (v['h'], v['label'], json.dumps(v['cfg'], sort_keys=True, default=str))
        k = next((k for k in known if matches_known(k, v)), None)
        if k is not None and k['id'] in knownhit:
            continue
        if k is None and (key in seen or len(confirmed) >= 3):
            continue
        tried += 1
        if tried > 12 or (tried > 3 and time.time() - t0 > 780):
            inconc.append('%s %s: counterexample to "%s" not replayed (budget)' % (v['h'], v['cfg'], v['label']))
            continue
        task = {'h': v['h'], 'cfg': v['cfg'], 'inputs': v['inputs'], 'slack': v['slack'], 'detail': v['detail']}
        okr, text = replay(task, builder)
        if okr:
            if k is not None:
                knownhit[k['id']] = k
            else:
                seen.add(key)
                v['reproduced'] = text
                confirmed.append(v)
        else:
            inconc.append('%s %s: counterexample to "%s" (%s) not reproduced on the real code (%s)' % (
                v['h'], v['cfg'], v['label'], v['detail'], text))
    for k in knownhit.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for i, v in enumerate(confirmed):
        path = os.path.join(rdir, '%s_%d.json' % (pid, i))
        with open(path, 'w') as f:
            json.dump(clean(v), f, indent=1, default=str)
        v['path'] = path
        print('counterexample in %s %s: %s %s' % (v['h'], v['cfg'], v['label'], v['detail']))
        print('  inputs: %s' % json.dumps(clean(v['inputs']), default=str)[:600])
        print('  on the real code: %s' % str(v['reproduced'])[:600])
        print('  replay with: /opt/venv/bin/python %s/replay.py %s' % (ROOT, path))
    for x in inconc[:40]:
        print('INCONCLUSIVE %s' % str(x)[:600])
    known_covers = bool(knownhit)
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': st.paths, 'transitions': st.transitions, 'traces_validated_against_impl': nval,
            'samples': samples or [{'harness': h.name, 'configs': [c for c in [j.cfg for j in jl if j.h is h][:3]]} for h in hs[:3]],
            'harnesses': per, 'configs': len(jl), 'configs_decided': decided,
            'queries_discharged': st.queries, 'branch_queries': st.branch_queries, 'unknown_answers': st.unknown,
            'assertions_checked': st.checks, 'assertions_sent_to_solver': st.checks_solver,
            'infeasible_paths': st.infeasible, 'probes_run_on_real_code': nprobe, 'solver_s': round(st.solver_s, 2), 'setup_s': round(setup_s, 2),
            'functions_encoded': {'python': sorted(funcs), 'cpp (LLVM IR)': demangle(sorted(cfuncs))},
            'bounds': {h.name: h.opts.get('bounds', h.doc) for h in hs},
            'configs_explored': [{'harness': j.h.name, **{k: v for k, v in j.cfg.items() if k != '_opts'}} for j in jl][:80],
            'inconclusive': inconc[:60], 'encoding_mismatches': mism[:5],
            'exhaustive': False,
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(wall, 2), 'violations': len(confirmed),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(clean(ev), f, indent=1, default=str)
    print('%s %s: %d configs, %d decided, %d paths, %d queries, %.1f s solver, %d traces validated, %.1f s' % (
        pid, tier, len(jl), decided, st.paths, st.queries, st.solver_s, nval, wall))
    if verbose:
        for n, p in per.items():
            print('   ', n, p)
    if confirmed:
        for v in confirmed:
            print('VIOLATION property=%s replay=%s' % (pid, v['path']))
        return 1
    if decided == 0 and not known_covers:
        if err or nval + nprobe == 0:
            print('ERROR: nothing was decided')
            return 2
        print('NOTE: no configuration was decided by the solver; %d inputs it chose held on the real code' % (nval + nprobe))
    return 0


ASSUMPTIONS = [
    'floating-point arithmetic on symbolic values is exact real arithmetic; comparisons with the oracle allow a tolerance far '
    'above float32 rounding at the bounded magnitudes (index and size arithmetic on concrete values uses IEEE semantics)',
    'symbolic inputs are finite and within the stated magnitude bounds',
    'the C++ code is encoded from the LLVM IR clang -O1 produces for the current sources against stand-in pybind11 headers',
    'numpy calls on symbolic arrays follow the models in engine/nps.py; these, and the encoding as a whole, are validated on '
    'concrete runs against the real code at every run',
]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--only', action='append')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int)
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.exit(check(a.property, a.tier, seed, a.only, a.v, a.j))
