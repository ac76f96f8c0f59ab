"""C22, continued: threads using different quantities (Services.tla).

The operations of the threads share nothing that the user gave (except functions):
their results must be those obtained alone, whatever the interleaving. Threads are
interrupted after their accesses to what could be shared (attributes, items, global
and closure variables), as in the specification.
"""
import copy
import dis
import math
import pickle
import random
import warnings

import numpy

import common
import threads

STORES = {'STORE_ATTR', 'STORE_SUBSCR', 'STORE_GLOBAL', 'STORE_DEREF', 'STORE_SLICE',
          'DELETE_ATTR', 'DELETE_SUBSCR', 'DELETE_GLOBAL', 'DELETE_DEREF'}
LOADS = {'LOAD_ATTR', 'BINARY_SUBSCR', 'LOAD_DEREF', 'LOAD_GLOBAL', 'CALL', 'CALL_FUNCTION_EX',
         'CONTAINS_OP', 'FOR_ITER', 'COMPARE_OP', 'BINARY_SLICE', 'SEND'}
_tables = {}


def access(code, offset):
    """1: the instruction can modify something shared; 2: it can use something shared."""
    table = _tables.get(code)
    if table is None:
        table = _tables[code] = {
            i.offset: 1 if i.opname in STORES else 2 if i.opname in LOADS else 0
            for i in dis.get_instructions(code)}
    return table.get(offset, 0)


# ---------------------------------------------------------------------------
# Operations: KINDS[k][0](environment) gives a function of an argument in 0..NARGS-1
NARGS = 4
SPECS = ('.3f', 'S', '.2ueL', '+012.1e')
TEXTS = ('1.234(5)', '(2.5+/-0.25)e-3', '12.3 ± 4.5', '-7.0(3.5)e10')
VALS = ((3., .5), (-1.5e10, 25e6), (2.5e-9, 1e-12), (0.25, 3e4))
FMTS = ((3.14159, .00123), (-123456789., 1234.), (0., 1.), (float('nan'), .5))


def numbers(q):
    return [q.nominal_value, q.std_dev, list(q.derivatives.values())]


def build():
    import uncertainties as u
    from uncertainties import umath, unumpy, ufloat

    def twice(x, y=2.):
        return 3*x + y*y
    wrapped = u.wrap(twice)
    kwrapped = u.wrap(lambda *args, **kw: sum(args)*2. - 5.*kw.get('k', 1.))
    wsum = u.wrap(lambda *args: 4*sum(args))
    poly = u.core.partial_derivative(lambda x, y: x*x*y, 0)

    def quantity(a):
        return ufloat(VALS[a][0], VALS[a][1], 't%d' % a)

    def fails(f):
        try:
            f()
        except Exception as e:
            return type(e).__name__
        return 'no exception'

    def fmt(a):
        x = ufloat(*FMTS[a])
        return [format(x, SPECS[a]), format(x, SPECS[(a+1) % 4])]

    def fmt_same(a):
        x = ufloat(1.25*(a+1), .125/(a+1))
        return [format(x, s) for s in ('.2uS', 'P', '')]

    def num1(a):
        x = quantity(a)
        return numbers(wrapped(x))

    def num2(a):
        x, y = quantity(a), quantity((a+1) % 4)
        return numbers(wrapped(x, y=y))

    def numk(a):
        x, y = quantity(a), quantity((a+1) % 4)
        return numbers(kwrapped(1., x, k=y))

    def nums(a):
        return numbers(wsum(*[quantity(i) for i in range(a+1)]))

    def arith(a):
        x, y = quantity(a), quantity((a+1) % 4)
        return numbers((x*y - x/y + 2)*(x - 3) + abs(x))

    def power(a):
        x = ufloat(abs(VALS[a][0]), VALS[a][1])
        return [numbers(x**2), numbers(x**ufloat(.5, .125)), numbers(2.**ufloat(a, .5)),
                numbers(x % 3), numbers(x // 3)]

    def mathf(a):
        x = ufloat((.5, -.25, .75, .125)[a], .125)
        return [numbers(umath.sin(x)), numbers(umath.atan2(x, 2)), numbers(umath.hypot(x, 3)),
                numbers(umath.log(abs(x), 7)), numbers(umath.fsum([x, 1, x])),
                numbers(umath.modf(x)[0]), umath.frexp(x)[1], umath.floor(x),
                umath.factorial(a)]

    def errors(a):
        x, y = quantity(a), ufloat(1, .25, 'other')
        z = 2*x - y
        return [sorted((str(v.tag), e) for v, e in z.error_components().items()), z.std_dev,
                z.std_score(4.)]

    def compare(a):
        x, y = quantity(a), quantity((a+1) % 4)
        return [x == x, x == y, x < y, x >= y, x - x == 0, bool(x), x != a, x > a]

    def cov(a):
        x, y = ufloat(1, (1, 2, 3, 4)[a]), ufloat(2, .5)
        return [numpy.array(u.covariance_matrix([x, y, x+a*y])).tolist(),
                u.correlation_matrix([x, y, x+y]).tolist()]

    def corr(a):
        m = [[4., a], [a, 9.]]
        xs = u.correlated_values([1, a], m, tags=['p', str(a)])
        return [numpy.array(u.covariance_matrix(xs)).tolist(), xs[1].nominal_value,
                [x.std_dev for x in u.correlated_values_norm([(1, a+1), (2, .5)],
                                                             [[1, .5], [.5, 1]])]]

    def arrays(a):
        arr = unumpy.uarray([a+1., 2, 3], [.5, a+.25, 0])
        r = unumpy.sqrt(arr)*2
        return [unumpy.nominal_values(r).tolist(), unumpy.std_devs(r).tolist(),
                (arr > 2).tolist(), numbers(arr.sum())]

    def matrices(a):
        m = unumpy.umatrix([[2., a], [1., 3.]], [[.5, .25], [0, a*.5]])
        i, p = m.I, unumpy.ulinalg.pinv(m)
        return [i.nominal_values.tolist(), i.std_devs.tolist(), p.nominal_values.tolist(),
                numbers((m*m)[0, 0])]

    def saved(a):
        x = quantity(a)
        y = (3*x).nominal_value*x
        z, w = pickle.loads(pickle.dumps((x, y)))
        c = copy.deepcopy([x, y])
        return [numbers(z), numbers(w), (w - w.nominal_value/z.nominal_value*z).std_dev == 0,
                numbers(c[1]), numbers(copy.copy(y)), z.tag, list(w.derivatives)[0] is z]

    def create(a):
        return [numbers(ufloat(a, .5)), repr(ufloat(a, .5, 'tag%d' % a)), str(quantity(a)),
                fails(lambda: ufloat(a, -1)), fails(lambda: ufloat(str(a), 1)),
                numbers(u.core.to_affine_scalar(a)) if a else []]

    def parse(a):
        return [numbers(u.ufloat_fromstr(TEXTS[a])), numbers(u.ufloat_fromstr(TEXTS[(a+1) % 4])),
                fails(lambda: u.ufloat_fromstr('x' + TEXTS[a]))]

    def legacy(a):
        x = ufloat((VALS[a][0], VALS[a][1]), 'old')
        y = ufloat(TEXTS[a])
        return [numbers(x), x.tag, numbers(y), x.std_dev(), y.std_dev()]

    def update(a):
        x = ufloat(1, .5)
        y = 2*x
        out = []
        for s in (a, a+.5, 0):
            x.std_dev = s
            out += [x.std_dev, y.std_dev, fails(lambda: setattr(x, 'std_dev', -1.)), y.std_dev]
        return out

    def slope(a):
        return [poly(VALS[a][0], 2.), poly(1., VALS[a][0])]

    def odd(a):
        x = ufloat((math.nan, math.inf, -math.inf, 0)[a], (1, 2, math.nan, 0)[a])
        return [str(x), x == x, umath.isnan(x), umath.isinf(x), numbers(x*2), fails(lambda: 1/x)]

    def refuse(a):
        x = quantity(a)
        return [fails(lambda: f(x)) for f in (float, int, math.sin, lambda q: q + 'a',
                                              lambda q: q < 'a', lambda q: q & 1)]
    return {f.__name__: f for f in (
        fmt, fmt_same, num1, num2, numk, nums, arith, power, mathf, errors, compare, cov, corr,
        arrays, matrices, saved, create, parse, legacy, update, slope, odd, refuse)}


KINDS = ('fmt fmt_same num1 num2 numk nums arith power mathf errors compare cov corr arrays '
         'matrices saved create parse legacy update slope odd refuse').split()


def alike(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(
            alike(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return isinstance(b, (int, float)) and common.same(a, float(b), 1e-12, 0)
    return a == b


def work(rep, jobs):
    warnings.simplefilter('ignore')
    threads.start_monitoring()
    known = {}
    for sc, seed, many in jobs:
        scenario(rep, sc, random.Random(seed), many, known)
        if rep.mismatches:
            return


def scenario(rep, sc, rng, many, known):
    prog = [[(KINDS[k-1], a-1) for k, a in ops] for ops in sc['prog']]
    for ops in prog:
        for op in ops:
            if op not in known:   # Alone, the first time
                known[op] = build()[op[0]](op[1])
    rep.distinct.add(repr(prog))
    rep.count('scenarios, independent operations')

    def attempt(schedule, level):
        env = build()
        thunks = [lambda ops=ops: [env[k](a) for k, a in ops] for ops in prog]
        s = threads.Scheduler(thunks, schedule, level=level)
        rep.case()
        rep.traces += 1
        replay = {'threads': prog, 'schedule': schedule, 'accesses': level}
        try:
            results = s.run()
        except threads.Stuck:
            rep.mismatch('deadlock', 'the threads do not finish: %s' % replay, replay)
            return s
        rep.count('context switches', s.switches)
        for t, (state, val) in enumerate(results):
            if state == 'error':
                rep.mismatch('independence', 'thread %d: %s; %s' % (t, val, replay), replay)
                return s
            for op, got in zip(prog[t], val):
                if not alike(known[op], got):
                    rep.mismatch('independence', 'thread %d, %s: %r instead of %r; %s' % (
                        t, op, got, known[op], replay), replay)
                    return s
        # Nothing remains of the interleaving
        for op in {op for ops in prog for op in ops}:
            got = env[op[0]](op[1])
            if not alike(known[op], got):
                rep.mismatch('independence', 'afterwards, %s: %r instead of %r; %s' % (
                    op, got, known[op], replay), replay)
                return s
        return s

    nt = len(prog)
    pairs = [(a, b) for a in range(nt) for b in range(nt) if a != b]
    rng.shuffle(pairs)
    for level in (1, 2):
        lengths = attempt([(t, threads.INF) for t in range(nt)], level).steps
        for a, b in pairs[:2]:
            n = lengths[a]
            points = range(1, n+1)
            if len(points) > many:
                points = sorted(rng.sample(points, many))
            else:
                rep.count('scenarios with all the interruptions')
            for p in points:
                attempt([(a, p), (b, threads.INF), (a, threads.INF)], level)
                if rep.mismatches:
                    return
        for _ in range(many // 4):
            a, b = rng.choice(pairs)
            attempt([(a, rng.randint(1, max(1, lengths[a]))),
                     (b, rng.randint(1, max(1, lengths[b]))),
                     (a, rng.randint(1, max(1, lengths[a]))), (b, threads.INF)], level)
            if rep.mismatches:
                return
    for scale in (1, 3, 10):
        runs = []
        for t in sc['sched']:
            if runs and runs[-1][0] == t - 1:
                runs[-1] = (t - 1, runs[-1][1] + scale)
            else:
                runs.append((t - 1, scale))
        attempt(runs, 1)
        if rep.mismatches:
            return


def jobs(ctx):
    base = dict(Sim=False, NT=2, MaxOps=2, Kinds={1}, NArgs=2, Space='call', Memory='pair')
    inv = ('Results', 'Progress')
    out = [dict(module='Services', constants=base, invariants=inv, properties=('Termination',)),
           dict(module='Services', constants=dict(base, NT=3, MaxOps=1, Kinds={1, 2}),
                invariants=inv),
           dict(module='Services', constants=dict(base, Space='shared'), invariants=('Results',),
                expect_violation=True),
           dict(module='Services', constants=dict(base, Memory='parts'), invariants=('Results',),
                expect_violation=True)]
    n = 30 if not ctx.thorough else 600
    for i, (nt, ops) in enumerate(((2, 1), (2, 2), (3, 2))):
        out.append(dict(module='Services', simulate=n, depth=2000, seed=ctx.seed*100 + 50 + i,
                        constants=dict(base, Sim=True, NT=nt, MaxOps=ops, NArgs=NARGS,
                                       Kinds=set(range(1, len(KINDS)+1))), invariants=inv))
    return out


def run(ctx, res):
    for r, what in ((res[2], 'shared working spaces'), (res[3], 'memories in parts')):
        if not r.violated:
            raise common.MachineryError('the specification does not see that %s are unsafe' % what)
    scenarios = [i for r in res[-3:] for i in r.items]
    # Every kind at least once, with all the arguments
    for k in range(1, len(KINDS)+1):
        a = ctx.seed + k
        scenarios.append({'prog': [[[k, a % 4 + 1]], [[k, (a+1) % 4 + 1], [k, a % 4 + 1]]],
                          'sched': [1, 2] * 10})
    ctx.sample({'independent operations': scenarios[0]})
    many = 24 if not ctx.thorough else 400
    common.pmap(ctx, work, [(sc, ctx.seed*7919 + k, many) for k, sc in enumerate(scenarios)],
                chunks=48, timeout=800)
