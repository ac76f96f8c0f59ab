"""C23: quantities with other objects, against Interop.tla."""
import array
import cmath
import datetime
import decimal
import fractions
import math
import operator
import random
import statistics
import time
import warnings

import common


class Raised(Exception):
    pass


class Token(object):
    pass


TOKEN = Token()
OPS = ('add sub mul truediv floordiv mod pow matmul and or xor lshift rshift divmod').split()
COMPARE = 'lt le gt ge eq ne'.split()
_classes = {}


def foreign(name):
    """An object whose methods behave as said by its name; LOG gets the calls."""
    if name not in _classes:
        f, r = name[-2], name[-1]

        def method(kind, opname):
            def m(self, other):
                LOG.append(opname)
                if kind == 'T':
                    return TOKEN
                if kind == 'N':
                    return NotImplemented
                raise Raised()
            return m
        body = {'__hash__': object.__hash__}
        for op in OPS:
            if f != '-':
                body['__%s__' % op] = method(f, op)
            if r != '-':
                body['__r%s__' % op] = method(r, 'r' + op)
        # Comparison methods are reflected methods too: the object is given those that
        # correspond to its side
        fwd, refl = dict(body), dict(body)
        for op in COMPARE:
            if f != '-':
                fwd['__%s__' % op] = method(f, op)
            if r != '-':
                refl['__%s__' % op] = method(r, op)
        _classes[name] = (type(str('Fwd'), (object,), fwd), type(str('Refl'), (object,), refl))
    return _classes[name]


LOG = []


class FloatSub(float):
    pass


class IntSub(int):
    pass


def a_function():
    pass


def operand(name, side, acc, rng, env):
    import numpy as np
    from uncertainties import ufloat
    if name.startswith('foreign'):
        return foreign(name)[0 if side == 'right' else 1]()
    small = rng.choice([-3, -1, 0, 1, 2, 5, 7])
    flt = rng.choice([-2.5, 0., 0.5, 1., 3., 0.1, 40., -1.])
    return {
        'int': lambda: small, 'bigint': lambda: 10**20, 'bool': lambda: bool(small % 2),
        'float': lambda: flt, 'negzero': lambda: -0., 'inf': lambda: rng.choice([1, -1]) * math.inf,
        'nan': lambda: math.nan, 'floatsub': lambda: FloatSub(flt), 'intsub': lambda: IntSub(small),
        'np.float64': lambda: np.float64(flt), 'np.float32': lambda: np.float32(flt),
        'np.int64': lambda: np.int64(small), 'np.uint8': lambda: np.uint8(abs(small)),
        'np.bool': lambda: np.bool_(small % 2), 'np.float16': lambda: np.float16(flt),
        'np.longdouble': lambda: np.longdouble(flt),
        'np.complex64': lambda: np.complex64(complex(small, rng.choice([0, 1]))),
        'np.str': lambda: np.str_(rng.choice(['', 'a', '3', '-1.5', 'nan'])),
        'np.bytes': lambda: np.bytes_(rng.choice([b'', b'3'])), 'np.void': lambda: np.void(b'3'),
        'np.datetime64': lambda: np.datetime64('2020-01-01'),
        'np.timedelta64': lambda: np.timedelta64(small, rng.choice(['D', 's'])),
        'fraction': lambda: fractions.Fraction(small, 3), 'decimal': lambda: decimal.Decimal(str(flt)),
        'complex': lambda: complex(small, rng.choice([0, 1])),
        'np.complex128': lambda: np.complex128(complex(small, 1)),
        'str': lambda: rng.choice(['', 'a', '3', '3+/-1', 'nan']),
        'bytes': lambda: rng.choice([b'', b'3']), 'list': lambda: rng.choice([[], [1.], [acc]]),
        'tuple': lambda: rng.choice([(), (1, 2), (acc,)]), 'none': lambda: None, 'set': lambda: {1},
        'dict': lambda: {}, 'object': object, 'class': lambda: rng.choice([int, float, type(acc)]),
        'function': lambda: a_function, 'ellipsis': lambda: Ellipsis,
        'notimplemented': lambda: NotImplemented, 'module': lambda: math,
        'variable': lambda: env['x'], 'derived': lambda: env['d'], 'exact': lambda: ufloat(flt, 0),
        'constant': lambda: env['c'], 'novars': lambda: env['v'], 'itself': lambda: acc}[name]()


def conversion(name, x):
    import numpy as np
    return {
        'float': lambda: float(x), 'int': lambda: int(x), 'complex': lambda: complex(x),
        'index': lambda: operator.index(x), 'hex': lambda: hex(x), 'round': lambda: round(x),
        'floor': lambda: math.floor(x), 'ceil': lambda: math.ceil(x), 'range': lambda: range(x),
        'item': lambda: [1, 2, 3, 4][x], 'np.float64': lambda: np.float64(x),
        'nparray': lambda: np.array([x], dtype=float), 'npint': lambda: np.int64(x),
        'percent_f': lambda: '%f' % x,
        'percent_d': lambda: '%d' % x, 'timedelta': lambda: datetime.timedelta(seconds=x),
        '__float__': lambda: x.__float__(), '__int__': lambda: x.__int__(),
        '__complex__': lambda: x.__complex__(), 'array.array': lambda: array.array('d', [x]),
        'fsum': lambda: math.fsum([x]), 'np.sin': lambda: np.sin(x), 'np.isnan': lambda: np.isnan(x),
        'statistics': lambda: statistics.mean([x, x]), 'decimal': lambda: decimal.Decimal(x),
        'fraction': lambda: fractions.Fraction(x), 'chr': lambda: chr(x),
        'sleep': lambda: time.sleep(x),
    }[name]()


def unsupported(name, x):
    def use_with():
        with x:
            pass

    def set_item():
        x[0] = 1

    def unpack():
        a, b = x
    return {
        'len': lambda: len(x), 'iter': lambda: iter(x), 'getitem': lambda: x[0],
        'setitem': set_item, 'contains': lambda: 1 in x, 'call': lambda: x(),
        'invert': lambda: ~x, 'with': use_with, 'divmod': lambda: divmod(x, 2),
        'rdivmod': lambda: divmod(2, x), 'pow3': lambda: pow(x, 2, 3), 'rpow3': lambda: pow(2, x, 3),
        'unpack': unpack, 'next': lambda: next(x)}[name]()


def do(f):
    """('ok', value) or ('error', exception type)."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return ('ok', f())
        except Raised:
            return ('raised', None)
        except Exception as e:
            return ('error', type(e))


def sd(q):
    try:
        return q.std_dev
    except OverflowError:  # The square of the uncertainty is too large
        return math.inf


def numbers_of(q):
    return (float(q.nominal_value), {id(v): d for v, d in q.derivatives.items()
                                       if d != 0 and v.std_dev != 0},
            sd(q))


def same_quantity(a, b):
    (n, d, s), (n2, d2, s2) = numbers_of(a), numbers_of(b)
    return (common.same(n, n2) and set(d) == set(d2)
            and all(common.same(d[v], d2[v]) for v in d) and common.same(s, s2))


def show(a):
    if a[0] == 'ok' and hasattr(a[1], 'derivatives'):
        return '%s of type %s' % (repr(a[1]), type(a[1]).__name__)
    return repr(a)


def work(rep, jobs):
    for beh, seed in jobs:
        history(rep, beh, random.Random(seed))
        if len(rep.mismatches) > 5:
            return


def history(rep, beh, rng):
    warnings.simplefilter('ignore')
    import numpy as np
    import uncertainties
    from uncertainties import ufloat, umath, UFloat
    x = ufloat(rng.choice([3., -1.5, 0., 0.25, 2.]), rng.choice([0.5, 0.1]), 'x')
    env = {'x': x, 'd': 2 * x + ufloat(1., 0.25), 'e': ufloat(2., 0),
           'c': uncertainties.correlated_values([2.5], [[0.]])[0],
           'v': uncertainties.core.AffineScalarFunc(
               rng.choice([3., 2.5, 0.]), uncertainties.core.LinearCombination({}))}
    acc = {'variable': x, 'derived': env['d'], 'exact': env['e'], 'constant': env['c'],
           'novars': env['v']}[beh['acc']]
    rep.traces += 1
    done = []
    for h in beh['hist']:
        before = numbers_of(acc)
        k, op, o, side, out = h['k'], h['op'], h['o'], h['side'], h['out']
        rep.case(repr((k, op, o, side)))
        rep.count(k)
        del LOG[:]
        other = equivalent = None
        if k == 'convert':
            got = do(lambda: conversion(op, acc))
        elif k == 'math':
            got = do(lambda: getattr(math, op)(acc))
        elif k == 'math2':
            got = do(lambda: getattr(math, op)(acc, 2))
        elif k == 'rmath2':
            got = do(lambda: getattr(math, op)(2, acc))
        elif k == 'cmath':
            got = do(lambda: getattr(cmath, op)(acc))
        elif k == 'unsupported':
            got = do(lambda: unsupported(op, acc))
        else:
            other = operand(o, side, acc, rng, env)
            if k == 'function':
                f = getattr(umath, op)
            else:
                f = divmod if op == 'divmod' else getattr(operator, op)
            args = (acc, other) if side == 'left' else (other, acc)
            got = do(lambda: f(*args))
            log = list(LOG)
            if out in ('quantity', 'truth') and o not in ('variable', 'derived', 'exact', 'constant', 'novars',
                                                          'itself'):
                exact = ufloat(float(other), 0)
                args2 = (acc, exact) if side == 'left' else (exact, acc)
                equivalent = do(lambda: f(*args2))
        # Truth of comparisons, and the like, are other properties: here, the number is the
        # same as a quantity without uncertainty
        step = '%s %s %s %s (acc = %s, other = %s)' % (k, op, o, side, done, other)
        replay = {'step': [k, op, o, side], 'before': done, 'acc': beh['acc'],
                  'value': repr(acc), 'other': repr(other)}

        def bad(clause, why):
            rep.mismatch(clause, '%s: %s; %r' % (why, show(got), replay), replay)
        if out == 'TypeError':
            # (functions can first refuse the value of the other argument)
            refused = (TypeError, ValueError) if op == 'matmul' or k == 'function' else TypeError
            if not (got[0] == 'error' and issubclass(got[1], refused)):
                bad('accepted', 'TypeError expected')
                return
        elif out == 'T':
            if got != ('ok', TOKEN):
                bad('foreign-result', 'the result of the other operand is expected')
                return
        elif out == 'R':
            if got[0] != 'raised':
                bad('foreign-exception', 'the exception of the other operand is expected')
                return
        elif out in ('true', 'false'):
            if not (got[0] == 'ok' and isinstance(got[1], (bool, np.bool_))
                    and bool(got[1]) == (out == 'true')):
                bad('equality', '%s expected' % out)
                return
        elif out == 'truth':
            if not (got[0] == 'ok' and isinstance(got[1], (bool, np.bool_))):
                bad('comparison', 'truth value expected')
                return
            if equivalent is not None and (equivalent[0] != 'ok'
                                           or bool(got[1]) != bool(equivalent[1])):
                bad('constant', 'not like a quantity without uncertainty (%s)' % (equivalent,))
                return
        elif out == 'quantity':
            if got[0] == 'ok':
                # (a function can give a plain number: fmod(x, inf), floor...)
                if not isinstance(got[1], UFloat):
                    bad('no-uncertainty', 'quantity expected')
                    return
                if equivalent is not None and not (
                        equivalent[0] == 'ok' and isinstance(equivalent[1], UFloat)
                        and same_quantity(got[1], equivalent[1])):
                    bad('constant', 'not like a quantity without uncertainty (%s)'
                        % show(equivalent))
                    return
            elif got[0] == 'raised' or (equivalent is not None and equivalent != got) or (
                    issubclass(got[1], (TypeError, AttributeError))):
                bad('constant', 'not like a quantity without uncertainty (%s)' % show(equivalent)
                    if equivalent else 'unexpected exception')
                return
        if k == 'op' and log != [m.rstrip('_') for m in h['log']]:
            bad('calls', 'methods of the other operand called: %s instead of %s' % (log, h['log']))
            return
        n, d, s = numbers_of(acc)
        if not (common.same(n, before[0]) and d == before[1] and common.same(s, before[2])):
            bad('modified', 'the quantity was modified')
            return
        if k == 'op' and out == 'quantity' and got[0] == 'ok' and op != 'divmod':
            n = abs(got[1].nominal_value)
            # (finite, moderate numbers: errors then come from the operands)
            if n == 0 or 1e-3 < n < 1e3 and sd(got[1]) < 1e3:
                acc = got[1]
                done = done + [[op, o, side]]


def check_c23(ctx):
    inv = ('NeverAccepted',)
    jobs = [dict(module='Interop', constants=dict(Sim=False, MaxSteps=1), invariants=inv)]
    n = 2400 if not ctx.thorough else 60000
    for i in range(4):
        jobs.append(dict(module='Interop', simulate=n // 4, depth=200, seed=ctx.seed * 100 + i,
                         constants=dict(Sim=True, MaxSteps=12), invariants=inv))
    res = ctx.tlc_many(jobs)
    single = res[0].items
    ctx.exhaustive = {'bounds': 'all single operations: %d' % len(single)}
    items = single + [i for r in res[1:] for i in r.items]
    ctx.sample(items[-1])
    reps = 2 if not ctx.thorough else 20
    common.pmap(ctx, work, [(b, ctx.seed * 104729 + i * 31 + r) for i, b in enumerate(items)
                            for r in range(reps)])
