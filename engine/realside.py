"""Runs harnesses on concrete inputs against the real code.  Reads tasks as JSON
lines on stdin: {"h": harness name, "cfg": .., "inputs": .., "slack": ..}."""
import json
import os
import signal
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def main():
    ext = sys.argv[1]
    import random
    from engine import core, loader, registry
    R = loader.load_real(ext)
    registry.load_all()
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)            # whatever the code prints goes to stderr
    import contextlib
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    for line in sys.stdin:
        t = json.loads(line)
        # each run in a process of its own: no state is left behind
        pid = os.fork()
        if pid == 0:
            import ctypes
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)
            try:
                h = registry.HARNESSES[t['h']]
                rng = random.Random(t['rng']) if t.get('rng') is not None else None
                ctx = core.ConCtx(t['inputs'], t['cfg'], R=R, slack=t.get('slack', 0.5), rng=rng)
                h.prepare(ctx)
                res = core.run_concrete(h.fn, ctx)
                out.write(json.dumps(clean(res)) + '\n')
                out.flush()
            except BaseException:
                import traceback
                traceback.print_exc()
                os._exit(1)
            os._exit(0)
        st = os.waitpid(pid, 0)[1]
        if st:
            rc = os.waitstatus_to_exitcode(st)
            if rc < 0:
                os.kill(os.getpid(), -rc)
            os._exit(rc)


def clean(x):
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if isinstance(x, float) and x - x != 0:
        return repr(x)
    return x


if __name__ == '__main__':
    main()
