"""Replays behaviours of spec/Wrap.tla: wrapped functions."""
import functools
import itertools
import math
import warnings
from fractions import Fraction

import numpy
import uncertainties
from uncertainties import UFloat, ufloat
from common import pmap

warnings.simplefilter('ignore')

W = {'a': 3, 'b': -5, 'c': 7, 'k': 11, 'm': -13, 'x': 17, 'y': 19,
     '*1': 23, '*2': -29, '*3': 31, '*4': 37, '*5': 41, '*6': -43, '*7': 47, '*8': -53,
     '*9': 59, '*10': -61, '*11': 67, '*12': -71}
V = {'a': 1, 'b': -1, 'c': 2, 'k': -2, 'm': 3, 'x': 1, 'y': -3,
     '*1': 2, '*2': 1, '*3': -1, '*4': 0, '*5': 1, '*6': -1, '*7': 0, '*8': 2,
     '*9': -2, '*10': 1, '*11': 0, '*12': -1}
DEFAULT = {'a': 2, 'b': -3, 'c': 5, 'k': 1, 'm': 4}
MARK = 1024
SHIFT2 = 41


class Opaque(object):
    """An argument that is not a number."""
    def __init__(self, v):
        self.v = v


class Bad(Exception):
    pass


class Recorder(object):
    def __init__(self, unit):
        self.unit = unit
        self.opaque = set()     # opaque objects received
        self.wrong = None       # uncertain argument received


def num(rec, v):
    """Value, in units of rec.unit"""
    if isinstance(v, Opaque):
        rec.opaque.add(id(v))
        v = v.v
    if isinstance(v, UFloat):
        rec.wrong = v
        v = v.nominal_value
    return v/rec.unit


NON_NUMERICAL = ('str', 'list', 'array', 'none')


def result(r, res):
    """The number r, as the kind of object that a function returns."""
    if res == 'str':
        return 'result %r' % r
    if res == 'list':
        return [r]
    if res == 'array':
        return numpy.array([r, 2*r])
    if res == 'none':
        return None
    if res == 'int':
        return int(r) if r == int(r) else r
    if res == 'npint':
        return numpy.int64(r) if r == int(r) else numpy.float64(r)
    return {'npfloat': numpy.float64, 'np32': numpy.float32, 'Fraction': Fraction,
            'float': float}[res](r)


def same_object(a, b):
    return type(a) is type(b) and (
        numpy.array_equal(a, b) if isinstance(a, numpy.ndarray) else a == b)


class Object(object):
    def __init__(self, f):
        self.f = f

    def __call__(self, *args, **kwargs):
        return self.f(*args, **kwargs)

    def method(self, *args, **kwargs):
        return self.f(*args, **kwargs)


class Falsy(Object):
    def __len__(self):
        return 0


CALLABLES = {'function': lambda f: f, 'object': Object, 'falsy': Falsy,
             'partial': functools.partial, 'method': lambda f: Object(f).method}


def make(sig, rec, res, shift=0):
    """(function to be wrapped, derivative by slot)"""
    pos = ['a', 'b', 'c'][:sig['pos']]
    ko = ['k', 'm'][:sig['ko']]
    params = ['%s=%r' % (p, DEFAULT[p]*rec.unit) if i >= sig['pos'] - sig['def'] else p
              for i, p in enumerate(pos)]
    if sig['var']:
        params.append('*args')
    elif ko:
        params.append('*')
    params += ['%s=%r' % (k, DEFAULT[k]*rec.unit) if sig['kodef'] else k for k in ko]
    if sig['vk']:
        params.append('**kw')
    params = ', '.join(params)
    bound = 'dict([%s]%s%s)' % (
        ', '.join('(%r, %s)' % (p, p) for p in pos + ko),
        ' + [("*%d" % (n+1), v) for (n, v) in enumerate(args)]' if sig['var'] else '',
        ' + list(kw.items())' if sig['vk'] else '')

    def value(b):
        b = {s: num(rec, v) for s, v in b.items()}
        lin = sum((W[s] + shift)*v for s, v in b.items())
        sq = sum(V[s]*v for s, v in b.items())
        r = lin + sq*sq + sum(v**3 for v in b.values())
        return result(r, res)

    def partial(b, s):
        b = {t: num(rec, v) for t, v in b.items()}
        if s not in b:
            raise Bad('the derivative for %s was called with %r' % (s, b))
        sq = sum(V[t]*v for t, v in b.items())
        return (W[s] + 2*V[s]*sq + 3*b[s]**2 + MARK)/rec.unit

    env = {'value': value, 'partial': partial}
    if sig['kind'] == 'lambda':
        f = eval('lambda %s: value(%s)' % (params, bound), env)
    elif sig['kind'] == 'def':
        exec('def original(%s):\n    "Some documentation."\n    return value(%s)'
             % (params, bound), env)
        f = env['original']
    else:
        first = {'method': 'self', 'classmethod': 'cls', 'staticmethod': ''}[sig['kind']]
        deco = '' if sig['kind'] == 'method' else '    @%s\n' % sig['kind']
        sep = ', ' if first and params else ''
        exec('class A(object):\n%s    def original(%s%s%s):\n        "Some documentation."\n'
             '        return value(%s)' % (deco, first, sep, params, bound), env)
        f = env['A']().original

    def deriv(s):
        return CALLABLES[sig['dc']](eval('lambda %s: partial(%s, %r)' % (params, bound, s), env))
    return f, deriv


def slot(sig, i):
    """Slot of positional argument i (0, 1...)"""
    return ['a', 'b', 'c'][i] if i < sig['pos'] else '*%d' % (i - sig['pos'] + 1)


def unused(*args, **kwargs):
    raise Bad('a derivative that does not correspond to any parameter was called')


def rec_unit(sig):
    return 2.**sig['e'] if sig['e'] else 1


def replay(beh):
    sig = beh['sig']
    unit = rec_unit(sig)
    rec = Recorder(unit)
    f, deriv = make(sig, rec, sig['res'])

    def given(i):
        s = slot(sig, i)
        if s[0] == '*' and (not sig['var'] or s not in W):
            return unused
        return deriv(s)
    f2, _ = make(sig, rec, sig['res'], SHIFT2)
    partial = uncertainties.core.partial_derivative
    da = [given(i) if k == 'g' else partial(f, i) if k == 'p' else None
          for i, k in enumerate(sig['da'])]
    original = list(da)
    container = {'list': da, 'tuple': tuple(da), 'iter': iter(da),
                 'inf': itertools.chain(da, map(given, itertools.count(len(da))))}[sig['c']]
    dk = {n: (deriv(n) if (sig['vk'] or n in ['k', 'm'][:sig['ko']]) else unused)
          if k == 'g' else partial(f, n) if k == 'p' else None
          for n, k in (sig['dk'].items() if isinstance(sig['dk'], dict) else [])}
    dk_original = dict(dk)
    n = -1
    try:
        def wrap(f):
            if not dk and not da and sig['c'] != 'inf':
                return uncertainties.wrap(f)
            if dk:
                return uncertainties.wrap(f, container, dk)
            return uncertainties.wrap(f, container)
        w2 = wrap(f2) if sig['second'] == 'before' else None
        wrapped = wrap(f)
        if sig['second'] == 'after':
            w2 = wrap(f2)
        if wrapped.name != f.__name__:
            raise Bad('name %r' % wrapped.name)
        if f.__doc__ and f.__doc__ not in wrapped.__doc__:
            raise Bad('the original documentation is lost')
        variables = [ufloat(n*unit, s*unit) for n, s in
                     [(2, 0.5), (-3, 0.25), (5, 0.125), (0, 0.5)]]
        for n, call in enumerate(beh['log']):
            if call['f'] == 1:
                do_call(sig, f, wrapped, call, variables, rec)
            else:
                do_call(sig, f2, w2, call, variables, rec)
            if da != original or dk != dk_original:
                raise Bad('the derivatives provided were modified')
    except Bad as e:
        return 'call %d: %s' % (n, e)
    except Exception as e:
        return 'call %d: raised %r' % (n, e)
    return None


def argument(a, variables, unit):
    if a['k'] == 'c':
        return a['v']*unit
    if a['k'] == 'o':
        return Opaque(a['v']*unit)
    v = variables[a['v']-1]
    return v if a['k'] == 'u' else 2*v - unit


def do_call(sig, f, wrapped, call, variables, rec):
    args = [argument(a, variables, rec.unit) for a in call['args']]
    kwargs = {n: argument(a, variables, rec.unit) for n, a in (
        call['kwargs'].items() if isinstance(call['kwargs'], dict) else [])}
    kw2 = dict(kwargs)
    rec.opaque.clear()
    rec.wrong = None
    shown = (call['args'], call['kwargs'])
    o = call['o']
    try:
        r = wrapped(*args, **kwargs)
    except Bad:
        raise
    except Exception as e:
        if o['t'] != 'TypeError' or not isinstance(e, TypeError):
            raise Bad('%r raised %r, expected %r' % (shown, e, o))
        return
    if o['t'] == 'TypeError':
        raise Bad('%r accepted (%r)' % (shown, r))
    if set(map(id, kwargs.values())) != set(map(id, kw2.values())):
        raise Bad('keyword arguments modified')
    if rec.wrong is not None:
        raise Bad('%r: the function received the quantity %r' % (shown, rec.wrong))
    if rec.opaque != {id(a) for a in args + list(kwargs.values()) if isinstance(a, Opaque)}:
        raise Bad('%r: opaque arguments not passed unchanged' % (shown,))
    if o['t'] == 'NotImplemented':
        if r is not NotImplemented:
            raise Bad('%r gave %r instead of NotImplemented' % (shown, r))
        return
    if o['t'] == 'plain':
        e = f(*args, **kwargs)
        if not same_object(r, e):
            raise Bad('%r gave %r instead of %r' % (shown, r, e))
        if sig['res'] not in NON_NUMERICAL and r != o['n']:
            raise Bad('value %r instead of %r' % (r, o['n']))
        return
    if not isinstance(r, UFloat):
        raise Bad('%r gave %r, not a quantity' % (shown, r))
    if r.nominal_value != o['n'] or type(r.nominal_value) is not float:
        raise Bad('%r: value %r instead of %r' % (shown, r.nominal_value, o['n']))
    if sig['res'] == 'np32' and o['num']:
        return      # Not enough digits for numerical derivatives
    ders = dict(r.derivatives)
    for v, d in zip(variables, o['d']):
        got = ders.pop(v, 0.)*rec.unit
        if not abs(got - d) <= 0.02 + 1e-6*abs(d):
            raise Bad('%r: derivative %r instead of %r' % (shown, got, d))
    if any(ders.values()):
        raise Bad('%r: unexpected derivatives %r' % (shown, ders))
    s = math.sqrt(sum((d*v.std_dev/rec.unit)**2 for d, v in zip(o['d'], variables)))
    if not abs(r.std_dev - s) <= 0.02 + 1e-6*s:
        raise Bad('%r: standard deviation %r instead of %r' % (shown, r.std_dev, s))


def check(ctx):
    total = 9000 if ctx.thorough else 1500
    jobs = [dict(module='Wrap', simulate=total, depth=20, seed=ctx.seed*1000 + i,
                 invariants=['NoHistory', 'ByName'],
                 constants=dict(Sim=True, MaxCalls=[2, 4, 4, 6, 6, 8, 4][i], MaxPos=[4, 4, 4, 4, 4, 4, 12][i]))
            for i in range(7)]
    res = ctx.tlc_many(jobs, 8)
    items = [b for r in res for b in r.items]
    ctx.notes['behaviours'] = len(items)
    ctx.sample(items[0])

    def work(rep, part):
        for b in part:
            rep.traces += 1
            s = b['sig']
            rep.case((s['kind'], s['pos'], s['var'], s['ko'], s['vk'], s['c']))
            for c in b['log']:
                rep.count('call ' + c['o']['t'])
            d = replay(b)
            if d:
                rep.mismatch('wrap', d, b)
    pmap(ctx, work, items, chunks=16, timeout=600)
