"""C22: threads using quantities that share intermediate results (Expand.tla).

The interleavings are imposed on the real code: only the thread that has the
baton runs, and it gives it after a chosen number of bytecode instructions of
the code under test. Results are compared with those of the specification
(which are the same for all interleavings).
"""
import copy
import math
import os
import pickle
import random
import sys
import threading
import time

import common
import services

PKG = os.path.join(os.path.realpath(common.REPO), 'uncertainties') + os.sep
HERE = os.path.realpath(__file__)
INF = 1 << 60


# Events of the instructions of the code under test. The events of a function are
# enabled when it is first called by the only thread (enabling them while other
# threads run crashes CPython 3.12).
ACTIVE = {}
MON = sys.monitoring
TOOL = 3
_seen = set()


def _on_start(code, offset):
    f = code.co_filename
    if f.startswith(PKG) or (f == HERE and code.co_name.startswith('traced_')):
        if code not in _seen and not ACTIVE:
            _seen.add(code)
            MON.set_local_events(TOOL, code, MON.events.INSTRUCTION)


def _on_instruction(code, offset):
    got = ACTIVE.get(threading.get_ident())
    if got is not None:
        s, me = got
        if s.level:
            # Only what follows an access to something that can be shared
            kind, s.last[me] = s.last[me], services.access(code, offset)
            if (kind == 0 or kind > s.level) and s.current == me:
                return
        s.event(me)


def start_monitoring():
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, 'schedules')
        MON.register_callback(TOOL, MON.events.PY_START, _on_start)
        MON.register_callback(TOOL, MON.events.INSTRUCTION, _on_instruction)
        MON.set_events(TOOL, MON.events.PY_START)


class Stuck(Exception):
    pass


class Scheduler(object):
    """Runs functions in threads, following a schedule [(thread, instructions)]."""

    def __init__(self, thunks, schedule, limit=60., level=0):
        self.n = len(thunks)
        self.thunks = thunks
        self.slots = list(schedule)
        self.limit = limit
        self.level = level
        self.last = [0] * self.n
        self.sems = [threading.Semaphore(0) for _ in thunks]
        self.done = [False] * self.n
        self.blocked = [False] * self.n
        self.results = [None] * self.n
        self.steps = [0] * self.n
        self.current = None
        self.budget = 0
        self.finished = threading.Event()
        self.blocks = 0
        self.switches = 0

    # The baton
    def next_slot(self):
        while self.slots:
            t, q = self.slots.pop(0)
            if not self.done[t] and not self.blocked[t] and q > 0:
                return t, q
        for t in range(self.n):
            if not self.done[t] and not self.blocked[t]:
                return t, INF
        for t in range(self.n):
            if not self.done[t]:
                return t, INF
        return None, 0

    def give(self):
        """Gives the baton to the next thread of the schedule, and returns it."""
        t, q = self.next_slot()
        self.current, self.budget = t, q
        return t

    def event(self, me):
        self.steps[me] += 1
        if self.current != me:
            # Was blocked by a lock, and is not any more
            self.blocked[me] = False
            self.sems[me].acquire()
        self.budget -= 1
        if self.budget <= 0:
            t = self.give()
            if t != me and t is not None:
                self.switches += 1
                self.sems[t].release()
                self.sems[me].acquire()

    def run_thread(self, me):
        self.sems[me].acquire()

        ACTIVE[threading.get_ident()] = (self, me)
        try:
            self.results[me] = ('ok', self.thunks[me]())
        except BaseException as e:
            self.results[me] = ('error', '%s: %s' % (type(e).__name__, e))
        finally:
            del ACTIVE[threading.get_ident()]
        self.done[me] = True
        if all(self.done):
            self.finished.set()
        elif self.current == me:
            t = self.give()
            self.sems[t].release()

    def run(self):
        threads = [threading.Thread(target=self.run_thread, args=(t,), daemon=True)
                   for t in range(self.n)]
        for t in threads:
            t.start()
        self.sems[self.give()].release()
        t0 = time.time()
        last = None
        while not self.finished.wait(0.01):
            now = (tuple(self.steps), tuple(self.done), self.current)
            cur = self.current
            if now == last and cur is not None and not self.done[cur]:
                # No progress: the thread waits for a lock
                self.blocked[cur] = True
                self.blocks += 1
                t = self.give()
                if t is not None and t != cur:
                    self.sems[t].release()
            last = now
            if time.time() - t0 > self.limit:
                raise Stuck()
        for t in threads:
            t.join()
        return self.results


# ---------------------------------------------------------------------------
COEFS = (2., -3., 5.)
SDS = (0.5, 0.25, 2., 1.)
NOMS = (3., -1.5, 0.25, 7.)


class Case(object):
    """A fresh set of the quantities and functions of a scenario."""

    def __init__(self, sc, build, deriv_kind):
        from uncertainties import ufloat, wrap
        self.vars = [ufloat(NOMS[i], SDS[i], 'v%d' % i) for i in range(sc['nv'])]
        self.nodes = list(self.vars)
        for n, terms in enumerate(sc['dag']):
            self.nodes.append(self.combine(terms, build if build < 2 else n % 2))

        def traced_d(k):
            return lambda *args: COEFS[k]
        ds = [traced_d(k) for k in range(3)]
        if deriv_kind == 1:   # numerical derivatives
            ds = [None, ds[1], None]
        if deriv_kind == 2:
            def traced_gen():
                for d in ds:
                    yield d
            source = traced_gen()
        elif deriv_kind == 3:
            source = ds
        else:
            source = iter(ds)

        def func(*args):
            return 2. * args[0] - 3. * args[1] + 5. * args[2]
        self.func = wrap(func, source)

    def combine(self, terms, build):
        from uncertainties import wrap
        if build == 0:
            total = 0.
            for c, n in terms:
                total = total + c * self.nodes[n-1]
            return total
        cs = [c for c, _ in terms]
        return wrap(lambda *args: sum(c * a for c, a in zip(cs, args)),
                    [(lambda c: lambda *args: float(c))(c) for c in cs])(
                        *[self.nodes[n-1] for _, n in terms])

    def call(self, args):
        full = [1.5, 2.5, -1.]
        for pos, n in args:
            full[pos-1] = self.nodes[n-1]
        return self.func(*full)

    def derivs(self, q):
        d = q.derivatives
        known = {id(v): i for i, v in enumerate(self.vars)}
        out = [0.] * len(self.vars)
        for v, x in list(d.items()):
            out[known[id(v)]] = x
        return out


READS = ('derivs', 'std_dev', 'components', 'str', 'format', 'repr', 'compare', 'pickle',
         'copy', 'deepcopy', 'covariance', 'derived', 'umath', 'nominal', 'score', 'array')


def observe(case, q, how):
    """What a user can read (all in terms of derivatives when possible)."""
    import uncertainties
    from uncertainties import umath
    if how == 'derivs':
        return case.derivs(q)
    if how == 'std_dev':
        return [q.std_dev, q.s, uncertainties.std_dev(q)]
    if how == 'components':
        comps = q.error_components()
        return [comps.get(v, 0.) for v in case.vars]
    if how == 'str':
        return str(q)
    if how == 'format':
        return ['{:.3f}'.format(q), '{:S}'.format(q), '{:.2ueL}'.format(q)]
    if how == 'repr':
        return repr(q)
    if how == 'compare':
        v = case.vars[0]
        return [q == q, q != v, q < v, q >= v, q == 1, bool(q), q - q == 0]
    if how == 'pickle':
        vs, q2 = pickle.loads(pickle.dumps((case.vars, q)))
        d = dict(q2.derivatives)
        return [d.get(v, 0.) for v in vs] + [q2.std_dev]
    if how == 'copy':
        return case.derivs(copy.copy(q))
    if how == 'deepcopy':
        vs, q2 = copy.deepcopy((case.vars, q))
        d = dict(q2.derivatives)
        # (a deep copy has its own variables)
        return sorted(x for x in d.values() if x) + [q2.std_dev]
    if how == 'covariance':
        return [list(r) for r in uncertainties.covariance_matrix([q] + case.vars)]
    if how == 'derived':
        return case.derivs(3 * q + case.vars[0])
    if how == 'umath':
        return case.derivs(umath.atan2(q, 2) + umath.exp(q / 64))
    if how == 'nominal':
        return [q.nominal_value, q.n, uncertainties.nominal_value(q)]
    if how == 'score':
        return [q.std_score(1.)] if q.std_dev else []
    if how == 'array':
        from uncertainties import unumpy
        return [float(x) for x in unumpy.std_devs([q, q + 1, case.vars[0]])]


def operation(case, op, how):
    if op['k'] == 'read':
        return observe(case, case.nodes[op['n'] - 1], how)
    if op['k'] == 'new':
        return case.derivs(case.combine(op['t'], 0))
    return case.derivs(case.call(op['t']))


def alike(a, b, tol):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, (float, int)):
        return common.same(a, float(b), tol, tol)
    return type(a) == type(b) and a == b


def expected_of(sc, hows, ref):
    """Results of each operation of each thread: from the specification when they are
    derivatives, otherwise from a sequential reading."""
    out = []
    for t, ops in enumerate(sc['prog']):
        row = []
        for i, op in enumerate(ops):
            d = [float(x) for x in sc['results'][t][i]]
            how = hows[t][i] if op['k'] == 'read' else 'derivs'
            sd = math.sqrt(sum((x * s)**2 for x, s in zip(d, SDS)))
            if how in ('derivs', 'copy'):
                row.append(d)
            elif how == 'std_dev':
                row.append([sd] * 3)
            elif how == 'components':
                row.append([abs(x) * s for x, s in zip(d, SDS)])
            elif how == 'pickle':
                row.append(d + [sd])
            elif how == 'deepcopy':
                row.append(sorted(x for x in d if x) + [sd])
            elif how == 'derived':
                row.append([3 * x + (1 if v == 0 else 0) for v, x in enumerate(d)])
            else:
                row.append(ref[t][i])
        out.append(row)
    return out


def work(rep, jobs):
    for sc, seed, many in jobs:
        one_scenario(rep, sc, random.Random(seed), many)
        if rep.mismatches:
            return


def one_scenario(rep, sc, rng, many):
    nt = len(sc['prog'])
    build = rng.randrange(3)
    kind = rng.randrange(4)
    hows = [[rng.choice(READS) if rng.random() < .7 else 'derivs' for _ in ops]
            for ops in sc['prog']]

    def fresh():
        case = Case(sc, build, kind)
        thunks = [lambda t=t: [operation(case, op, hows[t][i])
                               for i, op in enumerate(sc['prog'][t])] for t in range(nt)]
        return case, thunks
    start_monitoring()
    # Sequential references: each thread alone, with fresh quantities
    ref = []
    for t in range(nt):
        case, thunks = fresh()
        ref.append(thunks[t]())
    expected = expected_of(sc, hows, ref)
    tol = 1e-5 if kind == 1 else 1e-12
    tol_of = [[tol if op['k'] == 'call' else 1e-12 for op in ops] for ops in sc['prog']]
    rep.count('scenarios')

    def attempt(schedule):
        case, thunks = fresh()
        s = Scheduler(thunks, schedule)
        rep.case()
        rep.traces += 1
        replay = {'scenario': {k: sc[k] for k in ('nv', 'dag', 'prog')}, 'schedule': schedule,
                  'reads': hows, 'build': build, 'derivatives': kind}
        try:
            results = s.run()
        except Stuck:
            rep.mismatch('deadlock', 'the threads do not finish: %s' % (s.done,), replay)
            return s
        rep.count('context switches', s.switches)
        rep.count('waits for a lock', s.blocks)
        for t in range(nt):
            state, val = results[t]
            if state == 'error':
                rep.mismatch('exception', 'thread %d: %s; %s' % (t, val, replay), replay)
                return s
            for i, op in enumerate(sc['prog'][t]):
                if not alike(expected[t][i], val[i], tol_of[t][i]):
                    rep.mismatch('result', 'thread %d, operation %d (%s): %r instead of %r; %s' % (
                        t, i, hows[t][i] if op['k'] == 'read' else op['k'], val[i],
                        expected[t][i], replay), replay)
                    return s
        # Afterwards: the shared quantities and functions have kept their meaning
        for n, d in enumerate(sc['values']):
            got = case.derivs(case.nodes[sc['nv'] + n])
            if not alike([float(x) for x in d], got, 1e-12):
                rep.mismatch('value-lost', 'quantity %d has derivatives %r instead of %r; %s' % (
                    n, got, d, replay), replay)
                return s
        got = case.derivs(case.func(*[case.vars[0]] * 3))
        if not alike([4.] + [0.] * (sc['nv'] - 1), got, max(tol, 1e-12)):
            rep.mismatch('function-lost', 'the wrapped function has derivative %r; %s'
                         % (got, replay), replay)
        return s

    # One thread at a time
    lengths = attempt([(t, INF) for t in range(nt)]).steps
    rep.distinct.add(repr((sc['dag'], sc['prog'], hows)))
    # One interruption of a thread, at each of its instructions (or some of them)
    pairs = [(a, b) for a in range(nt) for b in range(nt) if a != b]
    pairs = [p for p in pairs if lengths[p[0]]]
    rng.shuffle(pairs)
    if not pairs:
        raise common.MachineryError('no instruction of the code is seen')
    for a, b in pairs[:2 if not many else None]:
        points = range(1, lengths[a] + 1)
        if len(points) > many:
            points = sorted(rng.sample(points, many))
        else:
            rep.count('scenarios with all interruptions of a thread')
        for p in points:
            attempt([(a, p), (b, INF), (a, INF)])
            if rep.mismatches:
                return
    # Two interruptions, and the interleavings of the specification
    for _ in range(many // 3):
        a, b = rng.choice(pairs)
        attempt([(a, rng.randint(1, lengths[a])), (b, rng.randint(1, max(1, lengths[b]))),
                 (a, rng.randint(1, lengths[a])), (b, INF), (a, INF)])
        if rep.mismatches:
            return
    for scale in (1, 3, 10, 30, 100):
        runs = []
        for t in sc['sched']:
            if runs and runs[-1][0] == t - 1:
                runs[-1] = (t - 1, runs[-1][1] + scale)
            else:
                runs.append((t - 1, scale))
        attempt(runs)
        if rep.mismatches:
            return


def check_c22(ctx):
    base = dict(Sim=False, NV=2, NN=2, NT=2, MaxOps=1, MaxTerms=2, Expansion='swap',
                Filling='lock')
    inv = ('Results', 'SameValue', 'RightCache')
    jobs = [dict(module='Expand', constants=base, invariants=inv, workers=4),
            dict(module='Expand', constants=dict(base, MaxTerms=1), workers=1,
                 properties=('Termination',)),
            dict(module='Expand', constants=dict(base, MaxTerms=1, Expansion='inplace'),
                 invariants=('Results',), expect_violation=True),
            dict(module='Expand', constants=dict(base, MaxTerms=1, Filling='free'),
                 invariants=('Results',), expect_violation=True)]
    if ctx.thorough:
        jobs.append(dict(module='Expand', constants=dict(base, NT=3, MaxTerms=1),
                         invariants=inv, workers=4, timeout=1500, heap='6g'))
        jobs.append(dict(module='Expand', constants=dict(base, MaxOps=2, MaxTerms=1),
                         invariants=inv, workers=4, timeout=1500, heap='6g'))
    n = 48 if not ctx.thorough else 1600
    sim = dict(Sim=True, MaxTerms=3, Expansion='swap', Filling='lock')
    shapes = [dict(NV=2, NN=2, NT=2, MaxOps=1), dict(NV=3, NN=3, NT=2, MaxOps=2),
              dict(NV=3, NN=6, NT=3, MaxOps=1), dict(NV=2, NN=4, NT=4, MaxOps=1)]
    for i, shape in enumerate(shapes):
        jobs.append(dict(module='Expand', simulate=n // 4, depth=2000, seed=ctx.seed * 100 + i,
                         constants=dict(sim, **shape), invariants=inv))
    more = services.jobs(ctx)
    res = ctx.tlc_many(jobs + more, parallel=6)
    independent, res = res[len(jobs):], res[:len(jobs)]
    for r, what in ((res[2], 'consumed sums'), (res[3], 'iterators without lock')):
        if not r.violated:
            raise common.MachineryError('the specification does not see that %s are unsafe' % what)
    ctx.exhaustive = {'bounds': '2 threads, all graphs of 2 shared quantities with up to 2 terms, '
                      'all single operations, all interleavings', 'states': res[0].distinct}
    scenarios = [i for r in res[-4:] for i in r.items]
    if ctx.seed:
        ctx.notes['note'] = ('interruptions are counted in bytecode instructions of the code '
                             'under test; other instructions are atomic')
    ctx.sample(scenarios[0])
    many = 70 if not ctx.thorough else 1500
    common.pmap(ctx, work, [(sc, ctx.seed * 7919 + k, many) for k, sc in enumerate(scenarios)],
                chunks=48, timeout=600)
    if not ctx.enough:
        services.run(ctx, independent)
