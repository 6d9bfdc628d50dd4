"""C17 shared generators and queues deliver every item exactly once"""
import multiprocessing
import random
import sys
import threading
import time

import numpy as np

from ..core import case

threading.excepthook = lambda *a: None


def jitter(rng, scale=.0005):
    r = rng.random()
    if r < .3:
        time.sleep(0)
    elif r < .45:
        time.sleep(scale * rng.random())


@case(quick=60, mult=10)
def shared_iterator(ctx):
    """N threads draw from one generator: together they see each item once, each thread in order"""
    from hyperion.utils.multithreading import ThreadSafeIter, threadsafe_generator
    n, T = ctx.int(20, 400), ctx.int(2, 8)
    inside = [0]
    overlap = [0]
    rng0 = random.Random(ctx.seedint())
    delay = ctx.flip()

    def source(a, b=0):
        for i in range(a):
            inside[0] += 1
            if inside[0] != 1:
                overlap[0] += 1
            if delay:
                jitter(rng0)
            inside[0] -= 1
            yield i + b
    style = ctx.int(0, 2)
    if style == 0:
        it = threadsafe_generator(source)(n, b=5)
        base = 5
    elif style == 1:
        it = ThreadSafeIter(source(n))
        base = 0
    else:
        class C(object):
            def __init__(self):
                self.i = -1

            def __iter__(self):
                return self

            def __next__(self):
                i = self.i
                if i + 1 >= n:
                    raise StopIteration
                jitter(rng0, .0002)
                self.i = i + 1
                return self.i
        it = ThreadSafeIter(C())
        base = 0
    ctx.check(iter(it) is it, 'iterator of the iterator')
    got = [[] for _ in range(T)]
    err = []
    bar = threading.Barrier(T)
    old = sys.getswitchinterval()
    sys.setswitchinterval(ctx.pick([1e-6, 1e-5, 1e-4]))

    def run(k, seed):
        rng = random.Random(seed)
        bar.wait()
        try:
            while True:
                try:
                    x = next(it) if rng.random() < .8 else it.next()
                except StopIteration:
                    return
                got[k].append(x)
                if rng.random() < .3:
                    jitter(rng)
        except Exception as e:
            err.append(repr(e))
    ts = [threading.Thread(target=run, args=(k, ctx.seedint()), daemon=True) for k in range(T)]
    try:
        [t.start() for t in ts]
        [t.join(30) for t in ts]
    finally:
        sys.setswitchinterval(old)
    ctx.check(not any(t.is_alive() for t in ts), 'a consumer hangs')
    ctx.check(not err, 'consumer failed', err[:2])
    ctx.same(sorted(sum(got, [])), list(range(base, base + n)), 'items lost or delivered twice')
    ctx.check(all(a == sorted(a) for a in got), 'items out of order in a consumer')
    ctx.same(overlap[0], 0, 'the generator ran in two threads at once')
    ctx.event('items', n)
    ctx.sig(T, style, tuple(len(a) for a in got), delay)
    ctx.sample(threads=T, items=n, per_thread=[len(a) for a in got])


class Src(object):
    """an endless thread-safe source that logs what it made"""

    def __init__(self, none_every=0, fail_at=None, rng=None, slow=0):
        self.slow = slow
        self.lock = threading.Lock()
        self.n = 0
        self.none_every = none_every
        self.fail_at = fail_at
        self.rng = rng

    def __iter__(self):
        return self

    def __next__(self):
        with self.lock:
            i = self.n
            if self.fail_at is not None and i >= self.fail_at:
                raise ValueError('source failed')
            self.n += 1
        if self.rng is not None and self.rng.random() < .3:
            time.sleep(.001 * self.rng.random())
        if self.slow:
            time.sleep(self.slow)
        if self.none_every and i % self.none_every == 0:
            return None
        return i


@case(quick=40, mult=10)
def generator_queue(ctx):
    """threads feed the queue from an endless source"""
    import importlib
    GeneratorQueue = importlib.import_module(ctx.pick(['hyperion.utils.queues', 'hyperion.io.queues'])).GeneratorQueue
    W, size = ctx.int(1, 4), ctx.int(1, 8)
    s = Src(none_every=ctx.pick([0, 0, 3]), rng=random.Random(ctx.seedint()) if ctx.flip() else None,
            slow=.06 if ctx.flip(.2) else 0)
    before = set(threading.enumerate())
    q = GeneratorQueue(s, wait_time=.001)
    ctx.check(not q.is_running(), 'running before the start')
    rounds = ctx.int(1, 2)
    for rnd in range(rounds):
        first = s.n
        q.start(workers=W, max_queue_size=size)
        ctx.check(q.is_running(), 'not running after the start')
        want = ctx.int(5, 60) if not s.slow else ctx.int(1, 4)
        got = []
        rng = random.Random(ctx.seedint())
        slow = ctx.flip(.4)
        t0 = time.time()
        for x in q.get():
            got.append(x)
            skipped = (s.n - first) // s.none_every + 1 if s.none_every else 0
            ctx.check(s.n - first <= len(got) + skipped + size + 2 * W, 'the queue runs ahead of its size', s.n - first, len(got), size, W)
            if slow and rng.random() < .2:
                time.sleep(.002)
            if len(got) >= want:
                break
            if time.time() - t0 > 60:
                ctx.fail('delivery stalls', len(got))
        q.stop()
        ctx.same([t.name for t in threading.enumerate() if t not in before], [], 'workers alive after the stop')
        ctx.check(not q.is_running(), 'running after the stop')
        ctx.check(None not in got, 'empty items delivered')
        ctx.check(len(set(got)) == len(got), 'item delivered twice', got)
        made = [i for i in range(first, s.n) if not (s.none_every and i % s.none_every == 0)]
        if W == 1:
            ctx.same(got, made[:len(got)], 'items of one worker lost or out of order')
        else:
            ctx.check(set(got) <= set(made), 'item that was never made')
            lost = [i for i in made if i not in set(got) and i < max(got)]
            # what is not delivered is still queued or in a worker's hands
            ctx.check(len([i for i in made if i not in set(got)]) <= size + 2 * W, 'items lost', len(made), len(got))
            ctx.check(len(lost) <= size + 2 * W, 'items lost', lost)
        n1 = s.n
        time.sleep(.01)
        ctx.same(s.n, n1, 'a worker still runs after the stop')
    ctx.event('items', s.n)
    ctx.sig('threads', W, size, slow, rounds, s.none_every)


@case(quick=10, mult=10)
def failing_source(ctx):
    """an error in the source ends the delivery instead of hanging it"""
    import importlib
    GeneratorQueue = importlib.import_module(ctx.pick(['hyperion.utils.queues', 'hyperion.io.queues'])).GeneratorQueue
    n = ctx.int(0, 30)
    W = ctx.int(1, 3)
    s = Src(fail_at=n)
    q = GeneratorQueue(s, wait_time=.001)
    q.start(workers=W, max_queue_size=ctx.int(1, 5))
    got = []

    def consume():
        for x in q.get():
            got.append(x)
    t = threading.Thread(target=consume, daemon=True)
    t.start()
    t.join(30)
    ctx.check(not t.is_alive(), 'the consumer hangs after the source failed')
    q.stop()
    ctx.check(len(set(got)) == len(got) and set(got) <= set(range(n)), 'items of a failed source', got)
    ctx.event('failures')
    ctx.sig('fail', n, W)


def pgen(tag):
    i = 0
    while True:
        yield (multiprocessing.current_process().pid, i, int(np.random.randint(2 ** 30)))
        i += 1


@case(quick=6, mult=8)
def processes(ctx):
    """worker processes: each delivers its own stream in order, with its own random seed"""
    import importlib
    GeneratorQueue = importlib.import_module(ctx.pick(['hyperion.utils.queues', 'hyperion.io.queues'])).GeneratorQueue
    W = ctx.int(1, 3)
    seed = ctx.int(1, 10 ** 6)
    q = GeneratorQueue(pgen(0), use_multiprocessing=True, wait_time=.001, random_seed=seed)
    q.start(workers=W, max_queue_size=ctx.int(2, 10))
    got = []
    t0 = time.time()
    want = ctx.int(20, 60)
    for x in q.get():
        got.append(x)
        if len(got) >= want and len({g[0] for g in got}) == W or len(got) > 20000 or time.time() - t0 > 60:
            break
    q.stop()
    ctx.check(not q.is_running(), 'running after the stop')
    ctx.same(len({g[0] for g in got}), W, 'processes that delivered')
    streams = {}
    for pid, i, v in got:
        streams.setdefault(pid, []).append((i, v))
    ref = {}
    for k in range(W):
        r = np.random.RandomState(seed + k)
        ref[k] = [int(r.randint(2 ** 30)) for _ in range(max(len(a) for a in streams.values()))]
    used = []
    for pid, a in streams.items():
        ctx.same([i for i, _ in a], list(range(len(a))), 'items of a process lost, repeated or out of order')
        k = [k for k in range(W) if ref[k][:len(a)] == [v for _, v in a]]
        ctx.check(len(k) == 1, 'random stream of a process', a[:3])
        used += k
    ctx.same(sorted(used), list(range(W)), 'random streams of the processes')
    ctx.event('items', len(got))
    ctx.sig('proc', W)


class Seq(object):
    def __init__(self, n, seed, fail=None):
        self.n = n
        self.rng = random.Random(seed)
        self.fail = fail

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if i == self.fail:
            raise ValueError('item failed')
        if self.rng.random() < .3:
            time.sleep(.001 * self.rng.random())
        return i


@case(quick=25, mult=10)
def ordered_queue(ctx):
    """several workers, yet the items come in order, epoch after epoch"""
    import importlib
    OrderedQueue = importlib.import_module(ctx.pick(['hyperion.utils.queues', 'hyperion.io.queues'])).OrderedQueue
    n, W = ctx.int(1, 20), ctx.int(1, 5)
    rand = ctx.flip()
    q = OrderedQueue(Seq(n, ctx.seedint()), scheduling='random' if rand else 'sequential')
    ctx.check(not q.is_running(), 'running before the start')
    q.start(workers=W, max_queue_size=ctx.int(1, 10))
    ctx.check(q.is_running(), 'not running after the start')
    E = ctx.int(1, 4)
    got = []
    g = q.get()
    from multiprocessing.pool import Pool
    check = Pool._check_running
    delay = ctx.pick([0, .0005, .002, .01])
    drng = random.Random(ctx.seedint())

    def slow_check(pool):
        # a scheduling delay between the check of the state and the submission of the task
        check(pool)
        if drng.random() < .3:
            time.sleep(delay * drng.random())
    try:
        if delay:
            Pool._check_running = slow_check
        for x in g:
            got.append(x)
            if len(got) == E * n:
                break
        t = threading.Thread(target=q.stop, kwargs=dict(timeout=5), daemon=True)
        t.start()
        t.join(40)
    finally:
        Pool._check_running = check
    ctx.check(not t.is_alive(), 'the stop hangs')
    ctx.check(not q.is_running(), 'running after the stop')
    for e in range(E):
        ep = got[e * n:(e + 1) * n]
        if rand:
            ctx.same(sorted(ep), list(range(n)), 'items of an epoch')
        else:
            ctx.same(ep, list(range(n)), 'items out of order')
    ctx.event('items', len(got))
    ctx.sig('ordered', n, W, rand)
    if ctx.flip(.4):
        bad = ctx.int(0, n - 1)
        q = OrderedQueue(Seq(n, 1, fail=bad))
        q.start(workers=W, max_queue_size=3)
        got = []

        def consume():
            for x in q.get():
                got.append(x)
        ctx.raises(consume, 'failed item not reported')
        ctx.same(got, list(range(bad)), 'items before the failed one')
        ctx.check(not q.is_running(), 'running after a failure')
