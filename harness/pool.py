"""In-process stand-in for process pools: tasks run one after another on copies of
their function and argument (processes share no state), and results which the
pool would give in completion order come in an order the harness chooses."""
import contextlib
import copy
import multiprocessing
import multiprocessing.pool
import concurrent.futures
import sys


class Result:
    def __init__(self, f):
        self.value = self.error = None
        try:
            self.value = f()
        except Exception as e:
            self.error = e

    def get(self, timeout=None):
        if self.error is not None:
            raise self.error
        return self.value
    result = get

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True
    done = ready

    def successful(self):
        return self.error is None

    def exception(self, timeout=None):
        return self.error

    def add_done_callback(self, f):
        f(self)


def isolated(f, *a, **k):
    f, a, k = copy.deepcopy((f, a, k))
    return copy.deepcopy(f(*a, **k))


class Pool:
    backwards = False

    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        n = k.get('max_workers', processes)
        if n is not None and n < 1:
            raise ValueError('Number of processes must be at least 1')
        self.closed = False
        if initializer is not None:
            initializer(*initargs)

    def _ready(self):
        if self.closed:
            raise ValueError('Pool not running')

    def map(self, f, it, *more, chunksize=None, **k):
        self._ready()
        more = [m for m in more if not isinstance(m, int) and m is not None]
        return [isolated(f, *x) for x in zip(it, *more)]

    def starmap(self, f, it, chunksize=None):
        self._ready()
        return [isolated(f, *x) for x in it]

    def imap(self, f, it, chunksize=1):
        return iter(self.map(f, it))

    def imap_unordered(self, f, it, chunksize=1):
        r = self.map(f, it)
        return iter(r[::-1] if Pool.backwards else r)

    def apply(self, f, args=(), kwds={}):
        self._ready()
        return isolated(f, *args, **kwds)

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        self._ready()
        return self._async(lambda: isolated(f, *args, **kwds), callback, error_callback)

    def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return self._async(lambda: self.map(f, it), callback, error_callback)

    def starmap_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return self._async(lambda: self.starmap(f, it), callback, error_callback)

    def _async(self, f, cb, ecb):
        r = Result(f)
        if r.error is None and cb:
            cb(r.value)
        if r.error is not None and ecb:
            ecb(r.error)
        return r

    def submit(self, f, *a, **k):
        self._ready()
        return Result(lambda: isolated(f, *a, **k))

    def close(self):
        self.closed = True

    def shutdown(self, *a, **k):
        self.closed = True

    def terminate(self):
        self.closed = True

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


@contextlib.contextmanager
def pools(ctx, backwards=False):
    """process pools of the implementation run their tasks here"""
    places = [(multiprocessing, 'Pool'), (multiprocessing.pool, 'Pool'), (multiprocessing.pool, 'ThreadPool'),
              (concurrent.futures, 'ProcessPoolExecutor'), (concurrent.futures, 'ThreadPoolExecutor')]
    originals = [getattr(m, n) for m, n in places]
    for name, m in list(sys.modules.items()):
        if name.startswith('riptide') and m is not None:
            for n, v in list(vars(m).items()):
                if any(v == o for o in originals if callable(v)):
                    places.append((m, n))
    saved = [(m, n, getattr(m, n)) for m, n in places]
    ctxs = [(c, c.Pool) for c in map(multiprocessing.get_context, multiprocessing.get_all_start_methods())]
    Pool.backwards = backwards
    done = concurrent.futures.as_completed
    try:
        for m, n, _ in saved:
            setattr(m, n, Pool)
        for c, _ in ctxs:
            c.Pool = Pool
        concurrent.futures.as_completed = lambda fs, timeout=None: iter(list(fs)[::-1] if backwards else list(fs))
        yield
    finally:
        for m, n, v in saved:
            setattr(m, n, v)
        for c, v in ctxs:
            try:
                del c.Pool
            except AttributeError:
                pass
        concurrent.futures.as_completed = done
        Pool.backwards = False
