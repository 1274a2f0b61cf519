"""Stand-ins for the environment of the code under test.

`torch.multiprocessing` as seen by causy.graph_model is replaced by FakeMP: its
Pool executes tasks in this process, in the order a scheduler dictates (see
lib/sched.py).  A real pool would spawn 2*cpu processes per model.
"""
import pickle


class _Numbered:
    def __init__(self, func):
        self.func = func

    def __call__(self, task):
        return task[0], self.func(task[1])


class _Starred:
    def __init__(self, func):
        self.func = func

    def __call__(self, args):
        return self.func(*args)


class FakePool:
    """imap_unordered with the semantics of multiprocessing.Pool, under control.

    Tasks are grouped in chunks of `chunksize`; building a chunk pulls the task
    generator (in the real pool: the task-handler thread of the parent) and
    pickles the tasks (so a worker sees the graph as it was at that moment);
    a chunk's results arrive together; chunks may complete in any order, and
    the parent consumes a result before, between or after further chunks are
    built.  `choose(n, what)` picks one of n enabled actions.
    """

    choose = staticmethod(lambda n, what: 0)
    copy = True

    def __init__(self, *a, **k):
        pass

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass

    def _feed(self, func, it, n):
        chunk = []
        for _ in range(n):
            try:
                x = next(it)
            except StopIteration:
                break
            chunk.append(x)
        return chunk

    def imap_unordered(self, func, iterable, chunksize=1):
        it = iter(iterable)
        outstanding = []
        done = False
        while True:
            # enabled: build the next chunk; complete one of the outstanding
            acts = ([] if done else [("feed", None)]) + [("run", i) for i in range(len(outstanding))]
            if not acts:
                return
            if len(acts) == 1:
                k = 0
            else:
                k = type(self).choose(len(acts), "pool")
            what, i = acts[k]
            if what == "feed":
                chunk = self._feed(func, it, chunksize)
                if not chunk:
                    done = True
                    continue
                outstanding.append(pickle.dumps(chunk) if self.copy else chunk)
            else:
                chunk = outstanding.pop(i)
                if self.copy:
                    chunk = pickle.loads(chunk)
                out = [func(x) for x in chunk]
                if self.copy:
                    out = pickle.loads(pickle.dumps(out))
                for r in out:
                    yield r

    def imap(self, func, iterable, chunksize=1):
        """as imap_unordered, but the results are handed out in the order of the tasks"""
        ready, nxt = {}, 0
        for i, r in self.imap_unordered(_Numbered(func), enumerate(iterable), chunksize):
            ready[i] = r
            while nxt in ready:
                yield ready.pop(nxt)
                nxt += 1

    def map(self, func, iterable, chunksize=1):
        # the real pool makes a list of all tasks first
        return list(self.imap(func, list(iterable), chunksize or 1))

    def starmap(self, func, iterable, chunksize=1):
        return self.map(_Starred(func), iterable, chunksize)

    def map_async(self, func, iterable, chunksize=1, callback=None, error_callback=None):
        tasks = list(iterable)
        return _Result(lambda: self.map(func, tasks, chunksize), callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=1, callback=None, error_callback=None):
        return self.map_async(_Starred(func), iterable, chunksize, callback, error_callback)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        # the arguments are sent to the worker at once; the result is taken when asked for
        sent = pickle.dumps((args, kwds)) if self.copy else (args, kwds)

        def run():
            a, k = pickle.loads(sent) if self.copy else sent
            out = func(*a, **k)
            return pickle.loads(pickle.dumps(out)) if self.copy else out

        return _Result(run, callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class _Result:
    def __init__(self, run, callback, error_callback):
        self.run, self.callback, self.error_callback = run, callback, error_callback
        self.state = None

    def wait(self, timeout=None):
        if self.state is None:
            try:
                self.state = (True, self.run())
            except Exception as e:
                self.state = (False, e)
            cb = self.callback if self.state[0] else self.error_callback
            if cb:
                cb(self.state[1])

    def get(self, timeout=None):
        self.wait()
        if not self.state[0]:
            raise self.state[1]
        return self.state[1]

    def ready(self):
        self.wait()
        return True

    def successful(self):
        self.wait()
        return self.state[0]


class FakeMP:
    Pool = FakePool

    @staticmethod
    def cpu_count():
        return 1

    @staticmethod
    def set_start_method(*a, **k):
        pass

    @staticmethod
    def get_start_method(*a, **k):
        return "spawn"

    @staticmethod
    def get_context(*a, **k):
        return FakeMP


def install():
    import torch.multiprocessing as tmp

    # replaced on the module itself, so that any way of importing it sees the fake
    tmp.Pool = FakePool
    tmp.set_start_method = FakeMP.set_start_method
    tmp.cpu_count = FakeMP.cpu_count
    tmp.get_context = FakeMP.get_context
    import causy  # noqa: F401
    import causy.graph_model  # noqa: F401
