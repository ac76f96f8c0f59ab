"""Replays behaviours of spec/Layout.tla: pickling of instances of subclasses."""
import pickle
import sys
import warnings

from uncertainties import core
from common import pmap

warnings.simplefilter('ignore')


class Bad(Exception):
    pass


class Illegal(Exception):
    pass


def build(beh):
    """The last class of the hierarchy"""
    root = core.Variable if beh['root'] == 'variable' else core.AffineScalarFunc
    made = [root]
    space = sys.modules[__name__].__dict__
    for n, c in enumerate(beh['classes'], 1):
        names = [{'r': '__r', 'dict': '__dict__', 'weakref': '__weakref__'}.get(s, s)
                 for s in sorted(c['slots'])]
        body = {'__module__': __name__}
        if c['has']:
            body['__slots__'] = {'tuple': tuple(names), 'list': names, 'set': set(names),
                                 'dict': dict.fromkeys(names), 'str': names[0] if names else ''
                                 }[c['form']]
        # (the leading underscores of a class are not used in private names)
        name = '%sC%d' % ('_'*(n % 3), n)
        try:
            cls = type(name, tuple(made[b] for b in c['bases']) or (object,), body)
        except TypeError as e:
            raise Illegal(e)
        space[name] = cls
        made.append(cls)
    if [made.index(c) for c in made[-1].__mro__ if c in made] != beh['mro']:
        raise Illegal('other order')
    return made[-1]


def attr(n):
    return '_C%s__r' % n[1:] if n[0] == 'r' else n


class World(object):
    """An instance and the other objects that it can refer to"""
    def __init__(self, cls, beh, first):
        if beh['root'] == 'variable':
            self.x = cls(2, float(first['s']), first['tag'] or None)
        else:
            self.x = cls(2., core.LinearCombination({core.Variable(1, 0.5): 3.}))
        self.other = core.Variable(7, 0.25, 'other')
        self.list = [self.x, self.other]
        self.twice = 2*self.x + self.other

    def value(self, v):
        return {'1': 1, '2': 2., 'None': None, 'self': self.x, 'list': self.list,
                'twice': self.twice, 'other': self.other}[v]


def verify(x, cls, beh, view):
    if type(x) is not cls:
        raise Bad('type %r' % type(x))
    if x.nominal_value != 2:
        raise Bad('nominal value %r' % x.nominal_value)
    if beh['root'] == 'variable':
        if x.std_dev != view['s']:
            raise Bad('standard deviation %r' % x.std_dev)
        if x.tag != (view['tag'] or None):
            raise Bad('tag %r' % (x.tag,))
        if dict(x.derivatives) != {x: 1}:
            raise Bad('derivatives %r' % dict(x.derivatives))
    else:
        if list(x.derivatives.values()) != [3.] or x.std_dev != 1.5:
            raise Bad('derivatives %r' % dict(x.derivatives))
    own = list(x.derivatives)[0]
    shared = {}

    def one(name, v, e):
        what = 'attribute %s (%r)' % (name, e)
        if e in ('1', '2'):
            if v != int(e) or type(v) is not (int if e == '1' else float):
                raise Bad('%s: %r' % (what, v))
        elif e == 'None':
            if v is not None:
                raise Bad('%s: %r' % (what, v))
        elif e == 'self':
            if v is not x:
                raise Bad('%s: other object' % what)
        elif shared.setdefault(e, v) is not v:
            raise Bad('%s: objects that were identical are not anymore' % what)
        elif e == 'list':
            if type(v) is not list or v[0] is not x:
                raise Bad('%s: %r' % (what, v))
            one(name + '[1]', v[1], 'other')
        elif e == 'other':
            if (v.nominal_value, v.std_dev, v.tag) != (7, 0.25, 'other'):
                raise Bad('%s: %r' % (what, v))
        else:
            k = 1 if beh['root'] == 'variable' else 3
            d = dict(v.derivatives)
            if v.nominal_value != 11 or d.pop(own, None) != 2*k or len(d) != 1:
                raise Bad('%s: %r with derivatives %r' % (what, v, dict(v.derivatives)))
            one(name + ' (variable)', list(d)[0], 'other')

    if hasattr(x, '__dict__') != view['hasdict']:
        raise Illegal('instance dictionary')
    expected = view['dict'] if isinstance(view['dict'], dict) else {}
    found = x.__dict__ if view['hasdict'] else {}
    if set(found) != {attr(n) for n in expected}:
        raise Bad('instance dictionary: %s instead of %s'
                  % (sorted(found), sorted(map(attr, expected))))
    for n, e in expected.items():
        one(attr(n) + ' of the dictionary', found[attr(n)], e)
    nothing = object()
    for n, e in view['seen'].items():
        v = getattr(x, attr(n), nothing)
        if e == 'undefined':
            if v is not nothing:
                raise Bad('attribute %s appeared' % attr(n))
        elif v is nothing:
            raise Bad('attribute %s is lost' % attr(n))
        else:
            one(attr(n), v, e)


def replay(beh):
    n = 0
    try:
        cls = build(beh)
        w = World(cls, beh, {'s': beh['start'], 'tag': beh['o']['tag']})
        for n, e in enumerate(beh['log'], 1):
            step(w, cls, beh, e)
        verify(w.x, cls, beh, beh['o'])
        if beh['root'] == 'variable':
            w.x.std_dev = 4
            if (3*w.x).std_dev != 12:
                raise Bad('unusable object')
        elif (3*w.x).std_dev != 4.5:
            raise Bad('unusable object')
    except Bad as e:
        return 'step %d: %s' % (n, e)
    except Illegal:
        return None
    except Exception as e:
        return 'step %d: raised %r' % (n, e)


def step(w, cls, beh, e):
    if e['a'] == 'set':
        try:
            setattr(w.x, attr(e['n']), w.value(e['v']))
        except AttributeError:
            if e['ok']:
                raise Illegal('attribute')
        else:
            if not e['ok']:
                raise Illegal('attribute')
    elif e['a'] == 'setdict':
        w.x.__dict__[attr(e['n'])] = w.value(e['v'])
    elif e['a'] == 'del':
        delattr(w.x, attr(e['n']))
    elif e['a'] == 'std':
        w.x.std_dev = e['s']
    else:
        old = w.x
        everything = (w.x, w.other, w.list, w.twice)
        sent = {'alone': everything, 'twice': everything + (w.x,),
                'with': (2*w.x,) + everything}[e['how']]
        got = pickle.loads(pickle.dumps(sent, e['p']))
        if e['how'] == 'with':
            double, got = got[0], got[1:]
        w.x, w.other, w.list, w.twice = got[:4]
        if e['how'] == 'twice' and got[4] is not w.x:
            raise Bad('the same instance became two')
        if w.x is old:
            raise Bad('not a new object')
        if e['how'] == 'with' and (double - 2*w.x).std_dev != 0:
            raise Bad('correlation lost')
        verify(w.x, cls, beh, e['o'])
        verify(old, cls, beh, e['o'])
        # What was in the instance refers to the other unpickled objects
        if (w.twice - 2*w.x - w.other).std_dev != 0 or w.list[0] is not w.x:
            raise Bad('correlation lost with the other objects')
        # Alone: the instance, and what it refers to
        verify(pickle.loads(pickle.dumps(old, e['p'])), cls, beh, e['o'])
        verify(old, cls, beh, e['o'])


def jobs(ctx):
    total = 9000 if ctx.thorough else 1500
    out = [dict(module='Layout', simulate=total, depth=40, seed=ctx.seed*1000 + 70 + i,
                invariants=['MroOK', 'NoDict'], properties=[],
                constants=dict(Sim=True, MaxClasses=[2, 3, 5][i], MaxLen=[4, 8, 12][i]))
           for i in range(3)]
    out.append(dict(module='Layout', workers=2, invariants=['MroOK', 'NoDict'],
                    properties=['PickleIdentity'],
                    constants=dict(Sim=False, MaxClasses=1, MaxLen=3 if ctx.thorough else 2)))
    return out


def run(ctx, results):
    items = [b for r in results for b in r.items]
    ctx.notes['class_layouts'] = len(items)
    ctx.sample({'subclass': items[0]})

    def work(rep, part):
        for b in part:
            rep.traces += 1
            rep.case(('layout', len(b['classes']), len(b['log'])))
            d = replay(b)
            if d:
                rep.mismatch('subclass', d, b)
    pmap(ctx, work, items, chunks=16, timeout=300)
