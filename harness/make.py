"""Replays behaviours of spec/Make.tla: creation of quantities, accessors."""
import collections
import math
import random
import struct
import warnings
from decimal import Decimal
from fractions import Fraction

import numpy
import uncertainties
from uncertainties import ufloat, ufloat_fromstr, UFloat
from uncertainties.core import Variable
from common import TAGS, pmap, same_tag

INF = float('inf')


class Bad(Exception):
    pass


def concrete(k, rnd):
    """A floating-point number for a token."""
    if k in ('nan', 'inf', '-inf'):
        return float(k)
    if k in ('zero', 'one'):
        return float(k == 'one')
    if k in ('int', 'negint'):
        return float(rnd.randint(2, 200)*(1 if k == 'int' else -1))
    if k == 'big':
        return rnd.random()*10**rnd.randint(20, 150)
    if k == 'small':
        return (rnd.random() + 0.1)*10**-rnd.randint(20, 140)
    return (rnd.random() + 0.01)*10**rnd.randint(-3, 5)*(1 if k == 'pos' else -1)


def typed(x, ty):
    i = {'int': int, 'npint': numpy.int64, 'bool': bool, 'npbool': numpy.bool_}
    if ty in i:
        return i[ty](int(x))
    return {'float': float, 'np64': numpy.float64, 'np32': numpy.float32,
            'Fraction': Fraction, 'Decimal': Decimal}[ty](x)


def eq(a, b):
    return a == b or (a != a and b != b)


def exactly(x, v):
    return isinstance(x, float) and eq(x, v)


class Foreign(object):
    """Not a quantity, but with the same attributes."""
    nominal_value = n = 3.25
    std_dev = s = 0.5

    def __init__(self):
        self.derivatives = self.error_components = {}


class Subclass(Variable):
    """(Has a __dict__)"""


class ForeignSlots(object):
    __slots__ = ['nominal_value', 'std_dev', 'tag']

    def __init__(self):
        self.nominal_value, self.std_dev, self.tag = 1., 2., None


Named = collections.namedtuple('Named', 'nominal_value std_dev')
OTHERS = {'text': lambda: 'abc', 'list': lambda: [1, 2], 'none': lambda: None,
          'foreign': Foreign, 'foreign-class': lambda: Foreign,
          'foreign-slots': ForeignSlots, 'named-tuple': lambda: Named(1., 2.)}


class Replay(object):
    def __init__(self, beh, seed):
        self.beh = beh
        self.rnd = random.Random(seed)
        self.objs = []
        self.values = []    # concrete (n, s) of the objects

    def run(self):
        for n, e in enumerate(self.beh['log']):
            try:
                getattr(self, 'do_' + e['a'])(e)
            except Bad as exc:
                return 'step %d, %r: %s' % (n, e, exc)
            except Exception as exc:
                return 'step %d, %r: raised %r' % (n, e, exc)
        for n, o in enumerate(self.beh['objs']):
            try:
                self.do_read(dict(o, i=n+1, x='pos', tx='float', score=o['s'] != 'zero'))
            except Bad as exc:
                return 'at the end, %r: %s' % (o, exc)
            except Exception as exc:
                return 'at the end, %r: raised %r' % (o, exc)
        return None

    def call(self, func, warn):
        """Result of func(), with a check of the warnings."""
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                return func()
            finally:
                self.warned = bool(w)

    def do_create(self, e):
        n, s = concrete(e['n'], self.rnd), concrete(e['s'], self.rnd)
        an, as_ = typed(n, e['tn']), typed(s, e['ts'])
        t = TAGS[e['t']]
        text = '%r+/-%r' % (n, s) if self.rnd.random() < .7 else '(%r +/- %r)' % (n, s)
        f = e['f']
        forms = {
            '2': lambda: ufloat(an, as_), '3': lambda: ufloat(an, as_, t),
            'tagkw': lambda: ufloat(an, as_, tag=t),
            'allkw': lambda: ufloat(tag=t, std_dev=as_, nominal_value=an),
            'Variable': lambda: Variable(an, as_, t),
            'Subclass': lambda: Subclass(an, as_, t),
            'pair': lambda: ufloat((an, as_)), 'pair-tag': lambda: ufloat((an, as_), t),
            'pair-tagkw': lambda: ufloat((an, as_), tag=t),
            'str': lambda: ufloat(text), 'str-tag': lambda: ufloat(text, t),
            'str-tagkw': lambda: ufloat(text, tag=t),
            'fromstr': lambda: ufloat_fromstr(text),
            'fromstr-tag': lambda: ufloat_fromstr(text, t),
            'fromstr-tagkw': lambda: ufloat_fromstr(text, tag=t)}
        try:
            o = self.call(forms[f], e['warn'])
        except Exception as exc:
            if e['ok']:
                raise Bad('(%r, %r): raised %r' % (an, as_, exc))
            return
        if not e['ok']:
            raise Bad('(%r, %r) was accepted' % (an, as_))
        if self.warned != e['warn']:
            raise Bad('warning: %s' % self.warned)
        if not isinstance(o, Variable):
            raise Bad('gave a %s' % type(o))
        self.objs.append(o)
        self.values.append((n, s))
        self.do_read(dict(e, i=len(self.objs), x='neg', tx='float', score=e['s'] != 'zero'))

    def do_refused(self, e):
        calls = {
            'nothing': lambda: ufloat(), 'number-alone': lambda: ufloat(1.5),
            'number-and-tag': lambda: ufloat(1.5, 'tag'),
            'no-std-dev': lambda: ufloat(1.5, tag='tag'), 'None': lambda: ufloat(None, 1),
            'list': lambda: ufloat([1, 2]), 'complex': lambda: ufloat(1+2j, 1),
            'complex-std': lambda: ufloat(1, 1+2j), 'text': lambda: ufloat('abc'),
            'text-std': lambda: ufloat(1, 'abc'), 'pair-of-1': lambda: ufloat((1,)),
            'pair-of-text': lambda: ufloat(('a', 'b')), 'empty-text': lambda: ufloat(''),
            'fromstr-number': lambda: ufloat_fromstr(3.25),
            'fromstr-text': lambda: ufloat_fromstr('1.2+/-x'),
            'fromstr-none': lambda: ufloat_fromstr(None),
            'unknown-keyword': lambda: ufloat(1, 2, unknown=3),
            'pair-negative': lambda: ufloat((1, -2)),
            'array': lambda: ufloat(numpy.array([1., 2.]), 1)}
        try:
            o = self.call(calls[e['w']], None)
        except Exception:
            return
        raise Bad('gave %r' % (o,))

    def do_set(self, e):
        o = self.objs[e['i']-1]
        s = concrete(e['s'], self.rnd)
        a = typed(s, e['ts'])

        def set_():
            if e['how'] == 'attr':
                o.std_dev = a
            else:
                o.set_std_dev(a)
        n, old = self.values[e['i']-1]
        try:
            self.call(set_, e['warn'])
        except Exception as exc:
            if e['ok']:
                raise
            if not exactly(o.std_dev, old):
                raise Bad('changed by a refused update')
            return
        if not e['ok']:
            raise Bad('%r was accepted' % a)
        if self.warned != e['warn']:
            raise Bad('warning: %s' % self.warned)
        self.values[e['i']-1] = (n, s)

    def do_tag(self, e):
        self.objs[e['i']-1].tag = TAGS[e['t']]

    def do_read(self, e):
        self.read(e['i']-1, e)
        n, s = self.values[e['i']-1]
        o = self.objs[e['i']-1]
        for q, f in [(o, 1.), (o*2, 2.), (-o, -1.)]:
            if e['x'] == 'equal':
                x = n*f
            elif e['x'] == 'next':
                x = float(numpy.nextafter(n*f, 1.))
            else:
                x = concrete(e['x'], self.rnd)
            v = typed(x, e['tx'])
            if e['tx'] in ('Fraction', 'Decimal', 'npbool'):
                v = x
            try:
                r = q.std_score(v)
            except ValueError:
                if e['score']:
                    raise
                continue
            if not e['score']:
                if isinstance(v, numpy.generic):
                    continue    # (NumPy's division by zero)
                raise Bad('score %r with an exact quantity' % r)
            with numpy.errstate(all='ignore'):
                exp = (x - n*f)/(s*abs(f))
            if not eq(r, exp) and not abs(r - exp) <= 1e-12*abs(exp):
                raise Bad('standard score of %r: %r instead of %r' % (v, r, exp))

    def read(self, i, e):
        o = self.objs[i]
        n, s = self.values[i]
        if not same_tag(o.tag, TAGS[e['t']]):
            raise Bad('tag %r' % (o.tag,))
        for q, f in [(o, 1.), (2*o, 2.)]:
            en, es = n*f, s*f
            got = [q.nominal_value, q.n, uncertainties.nominal_value(q)]
            if not all(type(x) is float and eq(x, en) for x in got):
                raise Bad('nominal value: %r instead of %r' % (got, en))
            got = [q.std_dev, q.s, uncertainties.std_dev(q)]
            if not all(isinstance(x, float) and (eq(x, es) or (
                    f != 1 and abs(x - es) <= 1e-12*es)) for x in got):
                raise Bad('standard deviation: %r instead of %r' % (got, es))
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                # Obsolete reading
                if callable(q.std_dev):
                    r = q.std_dev()
                    if not eq(r, q.std_dev) or not w:
                        raise Bad('std_dev() gives %r' % r)
                elif q is o:
                    raise Bad('std_dev() is not possible')

    def do_plain(self, e):
        if e['x'] in OTHERS:
            x = OTHERS[e['x']]()
        else:
            x = typed(concrete(e['x'], self.rnd), e['tx'])
        r = uncertainties.nominal_value(x)
        if r is not x:
            raise Bad('nominal_value(%r) is %r' % (x, r))
        r = uncertainties.std_dev(x)
        if type(r) is not float or r != 0:
            raise Bad('std_dev(%r) is %r' % (x, r))


def check(ctx):
    total = 4000 if ctx.thorough else 600
    ways = frozenset({'create', 'refused', 'set', 'tag', 'read', 'plain'})
    jobs = [dict(module='Make', simulate=total, depth=20, seed=ctx.seed*1000 + i,
                 invariants=['NonNegative'],
                 constants=dict(Sim=True, MaxLen=[3, 6, 9, 12][i], Ways=ways))
            for i in range(4)]
    jobs.append(dict(module='Make', workers=2, heap='3g', invariants=['NonNegative'],
                     properties=['RefusedHarmless'],
                     constants=dict(Sim=False, MaxLen=1,
                                    Ways=frozenset({'create', 'refused', 'plain'}))))
    res = ctx.tlc_many(jobs, 8)
    items = [b for r in res for b in r.items]
    ctx.notes['simulated_behaviours'] = sum(len(r.items) for r in res[:4])
    ctx.notes['exhaustive_behaviours'] = len(res[4].items)
    ctx.notes['exhaustive_bounds'] = 'all the single creations, refusals and plain objects'
    ctx.sample(res[1].items[0])
    items = list(enumerate(items))

    def work(rep, part):
        numpy.seterr(all='ignore')
        for n, b in part:
            rep.traces += 1
            for k in range(3 if ctx.thorough else 1):
                rep.case(repr([(e['a'], e.get('f'), e.get('tn'), e.get('ts'), e.get('w'))
                               for e in b['log']][:1]))
                d = Replay(b, ctx.seed*10**6 + n*10 + k).run()
                if d:
                    rep.mismatch('creation', d, {'behaviour': b, 'n': n, 'k': k})
                    break
    pmap(ctx, work, items, chunks=16, timeout=600)
