"""Replays behaviours of spec/Quant.tla in the real code."""
import copy
import math
import operator
import pickle
import warnings
from fractions import Fraction

import numpy
import uncertainties
from uncertainties import core, ufloat, umath
import layout
import wide
from common import TAGS, fl, same, same_tag, pmap

warnings.simplefilter('ignore')

INF = float('inf')


def number(d, ty):
    """The dyadic d as a number of the given type."""
    x = fl(d)
    if ty == 'int' and x != int(x):
        return x
    return {'float': float, 'int': int, 'bool': bool, 'np': numpy.float64,
            'npfloat': numpy.float64, 'npf32': numpy.float32,
            'npint': numpy.int64}[ty](x)


def std_number(d, ty, scale):
    x = fl(d) * scale
    if ty == 'int' and x == x and x == int(x) and abs(x) < 1e15:
        return int(x)
    return numpy.float64(x) if ty == 'np' else x


OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv,
       '//': operator.floordiv, '%': operator.mod, '**': operator.pow,
       'pow': umath.pow, 'hypot': umath.hypot, 'atan2': umath.atan2,
       'copysign': umath.copysign}
class FloatSub(float):
    pass


CMPS = {'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt, 'gt': operator.gt,
        'le': operator.le, 'ge': operator.ge}

wrapped_f = uncertainties.wrap(lambda x, y: x*y + 2*x,
                               [lambda x, y: y + 2, lambda x, y: x])


def wrapped_named(x, y):
    return x*y + 2*x


wrapped_g = uncertainties.wrap(wrapped_named, [lambda x, y: y + 2, lambda x, y: x])


class Abandon(Exception):
    """A mismatch that belongs to another property was met."""


class Replayer(object):
    """One behaviour in the real code.

    policy: 'log' (observe when the behaviour does), 'none' (only at the end),
    'all' (everything is read after each step).
    scale: factor applied to all the standard deviations.
    """

    def __init__(self, beh, policy, scale=1., taint=(), init_vars=()):
        self.beh = beh
        self.policy = policy
        self.scale = scale
        self.taint = taint            # actions whose results are tainted...
        self.tainted = set()          # ...and the objects built from them
        self.tainted_now = False
        self.objs = {}                # index -> object
        self.var_of = {}              # spec variable -> object (when held)
        self.vars = [dict(v) for v in init_vars]
        self.spec_objs = []
        self.out = []
        self.step = -1
        self.last_views = {}
        self.history = []

    # -- reporting ---------------------------------------------------------
    def bad(self, cls, detail):
        self.out.append((cls if not self.tainted_now else cls + '*', 'step %d %s: %s' % (
            self.step, self.beh['log'][self.step] if 0 <= self.step < len(self.beh['log'])
            else 'end', detail)))
        raise Abandon

    # -- views -------------------------------------------------------------
    def impl_view(self, i):
        o = self.objs[i]
        n = o.nominal_value
        d = dict(o.derivatives)
        c = o.error_components()
        return n, d, c, o.std_dev

    def key_name(self, var):
        for v, o in self.var_of.items():
            if o is var:
                return v
        return None

    def check_view(self, i, view, classes=('value', 'deriv', 'comp', 'std')):
        self.tainted_now = i in self.tainted
        self.check_view_(i, view, classes)
        self.tainted_now = False

    def check_view_(self, i, view, classes):
        """Compares object i with the view expected by the specification."""
        try:
            n, d, c, s = self.impl_view(i)
        except Exception as e:
            self.bad('deriv', 'reading object %d raised %r' % (i, e))
        if type(n) is not float:
            self.bad('value', 'nominal value of object %d is a %s' % (i, type(n)))
        if not same(n, fl(view['n'])):
            self.bad('value', 'nominal value of object %d: %r instead of %r'
                     % (i, n, fl(view['n'])))
        exp = {v: fl(x) for v, x in view['d'] if x != [0, 0]}
        act = {k: x for k, x in d.items() if x != 0}
        hidden_exp, hidden_act = [], []
        for v, x in exp.items():
            if v in self.var_of:
                var = self.var_of[v]
                got = act.pop(var, 0.)
                if not same(got, x):
                    self.bad('deriv', 'derivative of object %d with respect to'
                             ' variable %d: %r instead of %r' % (i, v, got, x))
            else:
                var = self.vars[v-1]
                hidden_exp.append((TAGS[var['t']], fl(var['s'])*self.scale, x))
        for var, x in act.items():
            if self.key_name(var) is not None:
                self.bad('deriv', 'object %d depends (%r) on variable %d, unexpectedly'
                         % (i, x, self.key_name(var)))
            hidden_act.append((var.tag, var.std_dev, x))
        m = unmatched(hidden_exp, hidden_act)
        if m:
            self.bad('deriv', 'variables of object %d: expected %s, got %s'
                     % (i, hidden_exp, hidden_act))
        # Components
        if 'comp' in classes:
            self.check_comps(i, view, c)
        self.check_std(i, view, s)

    def check_comps(self, i, view, c):
        exp_known = {}
        exp_hidden = []
        dd = dict((v, x) for v, x in view['d'])
        for v, x in view['c']:
            if dd[v] == [0, 0]:
                continue       # may be absent
            if v in self.var_of:
                exp_known[v] = fl(x[0])*fl(x[1])*self.scale
            else:
                exp_hidden.append((TAGS[self.vars[v-1]['t']],
                                   fl(x[0])*fl(x[1])*self.scale))
        act_hidden = []
        for var, x in c.items():
            if not (x >= 0 or x != x):
                self.bad('comp', 'component %r of object %d is negative' % (x, i))
            v = self.key_name(var)
            if v is None:
                if not (x == 0 or (x != x and var.std_dev != var.std_dev)) or \
                        self.objs[i].derivatives[var] != 0:
                    act_hidden.append((var.tag, x))
            elif v in exp_known:
                if not same(x, exp_known.pop(v)):
                    self.bad('comp', 'component of object %d for variable %d: %r'
                             % (i, v, x))
            elif self.objs[i].derivatives[var] != 0 or (x != 0 and x == x):
                self.bad('comp', 'unexpected component of object %d for variable'
                         ' %d: %r' % (i, v, x))
        if exp_known:
            self.bad('comp', 'missing components of object %d: %r' % (i, exp_known))
        if unmatched(exp_hidden, act_hidden):
            self.bad('comp', 'components of object %d: %r instead of %r'
                     % (i, act_hidden, exp_hidden))

    def check_std(self, i, view, s):
        dd = dict((v, x) for v, x in view['d'])
        total = Fraction(0)
        nan = ambiguous = False
        for v, x in view['c']:
            if dd[v] == [0, 0] and self.vars[v-1]['s'] == [0, 1]:
                ambiguous = True
            elif x[0] == [0, 1]:
                nan = True
            else:
                total += (Fraction(fl(x[0]))*Fraction(fl(x[1])))**2
        if nan:
            if s == s:
                self.bad('std', 'standard deviation of object %d: %r instead of nan' % (i, s))
        elif not (ambiguous and s != s):
            exp = math.sqrt(total)*self.scale
            if not same(s, exp):
                self.bad('std', 'standard deviation of object %d: %r instead of %r'
                         % (i, s, exp))

    # -- the behaviour -------------------------------------------------------
    def run(self):
        try:
            self.prologue()
            for self.step, e in enumerate(self.beh['log']):
                try:
                    getattr(self, 'do_' + e['a'])(e)
                except Abandon:
                    raise
                except Exception as exc:
                    self.tainted_now = self.taint == 'nan' and self.has_nan(e.get('r'))
                    self.bad(CLASS_OF.get(e['a'], 'value'), 'raised %s: %s'
                             % (type(exc).__name__, exc))
                if self.policy == 'all':
                    self.read_all(e)
            self.step = len(self.beh['log'])
            self.final()
        except Abandon:
            pass
        return self.out

    def prologue(self):
        """Initial state (Preset = "two")."""
        for n, v in enumerate(self.vars):
            self.objs[n+1] = ufloat([2., 3.][n], fl(v['s'])*self.scale, TAGS[v['t']])
            self.var_of[n+1] = self.objs[n+1]
        self.held = {n+1: n+1 for n in range(len(self.vars))}   # object -> variable

    def read_all(self, e):
        """Policy 'all': no object is changed by what is done with others."""
        setting = e['a'] == 'set'
        views = {}
        for i in list(self.objs):
            o = self.objs[i]
            try:
                v = (o.nominal_value, dict(o.derivatives), o.std_dev)
            except Exception as exc:
                self.bad('purity', 'reading object %d raised %r' % (i, exc))
            views[i] = v
            old = self.last_views.get(i)
            if old is None:
                continue
            if not same(old[0], v[0]):
                self.bad('purity', 'nominal value of object %d changed from %r to %r'
                         % (i, old[0], v[0]))
            a = {k: x for k, x in old[1].items() if x != 0}
            b = {k: x for k, x in v[1].items() if x != 0}
            if set(map(id, a)) != set(map(id, b)) or not all(same(a[k], b[k]) for k in a):
                self.bad('purity', 'derivatives of object %d changed from %r to %r'
                         % (i, a, b))
            if not setting and not same(old[2], v[2]):
                self.bad('purity', 'standard deviation of object %d changed from %r to %r'
                         % (i, old[2], v[2]))
        self.last_views = views

    def new_obj(self, r, o, v=None):
        if not isinstance(o, core.AffineScalarFunc):
            self.bad('value', 'the result is not a number with uncertainty: %r' % (o,))
        self.objs[r] = o
        e = self.beh['log'][self.step]
        if self.taint == 'nan':
            if self.has_nan(r):
                self.tainted.add(r)
        elif e['a'] in self.taint or any(
                e.get(k) in self.tainted for k in ('i', 'j', 'kk')):
            self.tainted.add(r)
        if v is not None:
            self.held[r] = v
            self.var_of[v] = o

    def has_nan(self, r):
        """Does the object have an undefined derivative?"""
        objs = self.beh['objs']
        return r is not None and r <= len(objs) and any(
            x == [0, 1] for v, x in objs[r-1]['d'])

    def push_var(self, s, t):
        self.vars.append({'s': s, 't': t})
        return len(self.vars)

    def do_new(self, e):
        args = [number(e['n'], e['ty']), std_number(e['s'], e['ty'], self.scale)]
        if e['t']:
            args.append(TAGS[e['t']])
        o = ufloat(*args)
        v = self.push_var(e['s'], e['t'])
        self.new_obj(e['r'], o, v)
        if not isinstance(o, core.Variable) or not same_tag(o.tag, TAGS[e['t']]) \
                or not same(o.nominal_value, fl(e['n'])) \
                or not same(o.std_dev, fl(e['s'])*self.scale):
            self.bad('create', 'created %r' % o)

    def do_bin(self, e):
        x, y = self.objs[e['i']], self.objs[e['j']]
        self.new_obj(e['r'], OPS[e['op']](x, y))

    def do_binc(self, e):
        x, c = self.objs[e['i']], number(e['c'], e['ty'])
        op = OPS[e['op']]
        self.new_obj(e['r'], op(c, x) if e['left'] else op(x, c))

    def do_un(self, e):
        f = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs, 'fabs': umath.fabs}
        self.new_obj(e['r'], f[e['op']](self.objs[e['i']]))

    def do_math(self, e):
        self.new_obj(e['r'], getattr(umath, e['f'])(self.objs[e['i']]))

    def do_ldexp(self, e):
        self.new_obj(e['r'], umath.ldexp(self.objs[e['i']], e['p']))

    def do_modf(self, e):
        x = self.objs[e['i']]
        f, i = umath.modf(x)
        if isinstance(f, float):       # quantity without variables: plain results
            f = f + 0*x
        self.new_obj(e['r'], f)
        if isinstance(i, core.AffineScalarFunc) or i != math.modf(x.nominal_value)[1]:
            self.bad('value', 'integer part: %r' % (i,))

    def do_frexp(self, e):
        x = self.objs[e['i']]
        m, p = umath.frexp(x)
        if isinstance(m, float):
            m = m + 0*x
        self.new_obj(e['r'], m)
        if p != e['p']:
            self.bad('value', 'exponent: %r' % (p,))

    def do_long(self, e):
        r, b, n, form = self.objs[e['i']], self.objs[e['j']], e['m'], e['form']
        if form == 'sum':
            r = sum([b]*n, r)
        elif form == 'fsum':
            r = umath.fsum([r] + [b]*n)
        elif form == 'iadd':
            for _ in range(n):
                r += b
        elif form == 'r+b':
            for _ in range(n):
                r = r + b
        elif form == 'b+r':
            for _ in range(n):
                r = b + r
        elif form == 'r-b':
            for _ in range(n):
                r = r - b
        elif form == 'b-r':
            for _ in range(n):
                r = b - r
        self.new_obj(e['r'], r)

    def do_double(self, e):
        y = self.objs[e['i']]
        for _ in range(e['m']):
            y = y + y
        self.new_obj(e['r'], y)

    def do_fsum(self, e):
        self.new_obj(e['r'], umath.fsum([self.objs[e['i']], self.objs[e['j']],
                                         fl(e['c']), self.objs[e['kk']]]))

    def do_wrapped(self, e):
        x, y = self.objs[e['i']], self.objs[e['j']]
        self.new_obj(e['r'], wrapped_g(y=y, x=x) if e['kw'] else wrapped_f(x, y))

    def do_set(self, e):
        o = self.objs[e['i']]
        s = fl(e['s'])*self.scale
        if e['how'] == 'attr':
            o.std_dev = s
        else:
            o.set_std_dev(s)
        self.vars[self.held[e['i']]-1]['s'] = e['s']
        if not same(o.std_dev, s):
            self.bad('set', 'standard deviation is %r instead of %r' % (o.std_dev, s))

    def do_setbad(self, e):
        o = self.objs[e['i']]
        bad = e['x'] if e['x'] == 'str' else {
            'float': float, 'np': numpy.float64, 'sub': FloatSub}[e['ty']](e['x'])
        before = float(o.std_dev)
        try:
            if e['how'] == 'attr':
                o.std_dev = bad
            else:
                o.set_std_dev(bad)
        except Exception:
            pass
        else:
            self.bad('set', 'standard deviation %r was accepted' % (bad,))
        if not same(o.std_dev, before):
            self.bad('set', 'a refused standard deviation (%r) changed the'
                     ' previous one from %r to %r' % (bad, before, o.std_dev))

    def do_setref(self, e):
        o = self.objs[e['i']]
        before = o.nominal_value, float(o.std_dev)
        try:
            setattr(o, e['w'], 12.5)
        except AttributeError:
            pass
        else:
            self.bad('set', '%s of %r could be set' % (e['w'], type(o)))
        after = o.nominal_value, float(o.std_dev)
        if not (same(before[0], after[0]) and same(before[1], after[1])):
            self.bad('set', 'refused update changed %r into %r' % (before, after))

    def do_copy(self, e):
        o = self.objs[e['i']]
        new = copy.deepcopy(o) if e['deep'] else copy.copy(o)
        base = self.add_hidden(e['src'])
        self.copied(e['i'], e['r'], new, base + 1)

    def copied(self, i, r, new, v):
        if i in self.held:
            tag = TAGS[self.vars[self.held[i]-1]['t']]
            if not isinstance(new, core.Variable) or not same_tag(new.tag, tag):
                self.bad('copy', 'copy of a variable: %r (tag %r)'
                         % (new, getattr(new, 'tag', '-')))
            if new is self.objs[i]:
                self.bad('copy', 'the copy of a variable is the variable itself')
        elif type(new) is not type(self.objs[i]):
            self.bad('copy', 'type %s became %s' % (type(self.objs[i]), type(new)))
        self.new_obj(r, new, v if i in self.held else None)

    def add_hidden(self, src):
        """New variables that mirror the given (specification) variables."""
        base = len(self.vars)
        for v in src:
            self.push_var(self.vars[v-1]['s'], self.vars[v-1]['t'])
        return base

    def do_deeplist(self, e):
        l = [self.objs[e['i']], self.objs[e['j']], self.objs[e['i']]]
        new = copy.deepcopy(l)
        if new[2] is not new[0]:
            self.bad('copy', 'the same object was deep-copied twice')
        base = self.add_hidden(e['src'])
        self.copied(e['i'], e['r'], new[0], base + 1)
        self.copied(e['j'], e['r']+1, new[1], base + len(e['src']))

    def do_pickle(self, e):
        objs = [self.objs[i] for i in e['sel']]
        new = pickle.loads(pickle.dumps(objs, e['p']))
        base = self.add_hidden(e['src'])
        for n, i in enumerate(e['sel']):
            if type(new[n]) is not type(objs[n]):
                self.bad('pickle', 'type %s became %s' % (type(objs[n]), type(new[n])))
            v = None
            if i in self.held:
                v = base + 1 + e['src'].index(self.held[i])
                if not same_tag(new[n].tag, TAGS[self.vars[v-1]['t']]):
                    self.bad('pickle', 'tag %r' % (new[n].tag,))
            self.new_obj(e['r']+n, new[n], v)

    def do_drop(self, e):
        del self.objs[e['i']]
        self.last_views.pop(e['i'], None)
        v = self.held.pop(e['i'], None)
        if v is not None:
            del self.var_of[v]

    def do_read(self, e):
        if self.policy != 'none':
            self.check_view(e['i'], e['o'])

    def do_peek(self, e):
        if self.policy == 'none':
            return
        o, w = self.objs[e['i']], e['w']
        if w in ('str', 'repr'):
            {'str': str, 'repr': repr}[w](o)
        elif w == 'format':
            try:
                format(o, '.3u')
            except ZeroDivisionError:
                pass
        elif w == 'std_dev':
            o.std_dev
        elif w == 'error_components':
            o.error_components().clear()
        elif w == 'derivatives':
            o.derivatives
        elif w == 'missing':
            try:
                o.derivatives[ufloat(1, 1)]
            except KeyError:
                pass
        elif w == 'bool':
            bool(o)
        elif w == 'eq':
            o == o, o != 3, o < o, o >= 2
        elif w == 'pickle':
            pickle.dumps(o)
        elif w == 'copy':
            copy.copy(o)
        elif w == 'deepcopy':
            copy.deepcopy(o)
        elif w == 'cov':
            core.covariance_matrix([o, 2*o])
        elif w == 'hash':
            try:
                hash(o)
            except TypeError:
                pass
        elif w == 'std_score':
            try:
                o.std_score(1.)
            except (ValueError, ZeroDivisionError):
                pass

    def blame(self, e):
        """After an unexpected observation: are the observed objects what the
        specification says? If not, the matter is that of another property."""
        for i, view in e.get('vw', ()):
            self.check_view(i, view)

    def do_cmp(self, e):
        if self.policy == 'none':
            return
        x, y = self.objs[e['i']], self.objs[e['j']]
        self.compare(e, x, y, e['o'])

    def compare(self, e, x, y, expected):
        for name, op in CMPS.items():
            got = op(x, y)
            if got not in (True, False) or bool(got) not in expected[name]:
                self.blame(e)
                self.bad('cmp', '%r %s %r is %r' % (x, name, y, got))

    def do_cmpc(self, e):
        if self.policy == 'none':
            return
        x, c = self.objs[e['i']], number(e['c'], e['ty'])
        self.compare(e, x, c, e['o'])
        self.compare(e, c, x, e['ro'])

    def do_cmpf(self, e):
        """Foreign objects are different, and not ordered."""
        if self.policy == 'none':
            return
        x, v = self.objs[e['i']], fl(e['c'])
        t = '%d' % v if v == int(v) else repr(v)
        f = {'text': t, 'bytes': t.encode(), 'list': [v], 'tuple': (v,), 'none': None,
             'pair': (v, x.std_dev), 'set': {v}, 'dict': {v: v}, 'type': type(x),
             'object': object()}[e['f']]
        for a, b in ((x, f), (f, x)):
            for name, op in CMPS.items():
                try:
                    got = op(a, b)
                except TypeError:
                    got = TypeError
                if got is not {'eq': False, 'ne': True}.get(name, TypeError):
                    self.blame(e)
                    self.bad('cmp', '%r %s %r is %r' % (a, name, b, got))

    def do_bool(self, e):
        if self.policy == 'none':
            return
        got = bool(self.objs[e['i']])
        if got not in e['o']:
            self.blame(e)
            self.bad('bool', 'truth value of %r is %r' % (self.objs[e['i']], got))

    def do_cov(self, e):
        if self.policy == 'none':
            return
        try:
            self.check_cov(e)
        except Abandon:
            found = self.out.pop()
            self.blame(e)
            self.out.append(found)
            raise

    def check_cov(self, e):
        objs = [self.objs[i] for i in e['q']]
        self.tainted_now = any(i in self.tainted for i in e['q'])
        n = len(objs)
        mat = core.covariance_matrix(objs)
        exp = [[cov_value(t, self.scale) for t in row] for row in e['o']]
        if len(mat) != len(objs) or any(len(r) != len(objs) for r in mat):
            self.bad('cov', 'shape of the covariance matrix')
        for i in range(n):
            for j in range(n):
                if not same(mat[i][j], exp[i][j], 1e-9) and not (
                        mat[i][j] != mat[i][j] and self.nan_ambiguous(e, i, j)):
                    self.bad('cov', 'covariance of objects %d and %d: %r instead of %r'
                             % (e['q'][i], e['q'][j], mat[i][j], exp[i][j]))
                if not same(mat[i][j], mat[j][i]):
                    self.bad('cov', 'the covariance matrix is not symmetric')
        if not n or any((x != x) != (mat[i][i] != mat[i][i])
                        for i, x in enumerate(exp[i][i] for i in range(n))):
            self.tainted_now = False
            return
        # (Correlations with a quantity without uncertainty are not defined.)
        corr = core.correlation_matrix(objs)
        for i in range(n):
            for j in range(n):
                if exp[i][i] == 0 or exp[j][j] == 0:
                    continue
                if exp[i][i] != exp[i][i] or exp[j][j] != exp[j][j]:
                    x = float('nan')
                else:
                    x = exp[i][j]/math.sqrt(exp[i][i])/math.sqrt(exp[j][j])
                if not same(float(corr[i][j]), x, 1e-9, 1e-9):
                    self.bad('cov', 'correlation of objects %d and %d: %r instead'
                             ' of %r' % (e['q'][i], e['q'][j], corr[i][j], x))
        self.tainted_now = False

    def nan_ambiguous(self, e, i, j):
        """0 derivative with a NaN standard deviation: NaN is also accepted"""
        return any(v['s'] == [0, 1] for v in self.vars)

    def final(self):
        """All the objects, jointly."""
        b = self.beh
        for tainted in (False, True):
            for i, o in enumerate(b['objs'], 1):
                if o['k'] != 'gone' and (i in self.tainted) == tainted:
                    self.check_view(i, o)
        # Joint identity of the variables that the user does not hold: each
        # one is characterized by its tag, standard deviation and derivatives
        # in all the objects.
        exp, act = {}, {}
        for i, o in enumerate(b['objs'], 1):
            if o['k'] == 'gone':
                continue
            for v, x in o['d']:
                if v not in self.var_of and x != [0, 0]:
                    exp.setdefault(v, []).append((i, fl(x)))
            for var, x in self.objs[i].derivatives.items():
                if self.key_name(var) is None and x != 0:
                    act.setdefault(var, []).append((i, x))
        exp = [(TAGS[self.vars[v-1]['t']], fl(self.vars[v-1]['s'])*self.scale, tuple(l))
               for v, l in exp.items()]
        act = [(v.tag, v.std_dev, tuple(l)) for v, l in act.items()]
        if unmatched(exp, act):
            self.bad('joint', 'variables shared by the objects: expected %r, got %r'
                     % (exp, act))


def cov_value(terms, scale):
    total = Fraction(0)
    for a, b, s in terms:
        a, b, s = fl(a), fl(b), fl(s)
        if a != a or b != b or s != s:
            return float('nan')
        total += Fraction(a)*Fraction(b)*Fraction(s)**2
    return float(total)*scale*scale


def close_sig(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(close_sig(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return same(a, b)
    return a == b


def unmatched(exp, act):
    act = list(act)
    if len(exp) != len(act):
        return True
    for x in exp:
        for n, y in enumerate(act):
            if close_sig(x, y):
                del act[n]
                break
        else:
            return True
    return False


CLASS_OF = {'set': 'set', 'setbad': 'set', 'setref': 'set', 'copy': 'copy',
            'deeplist': 'copy', 'pickle': 'pickle', 'cmp': 'cmp', 'cmpc': 'cmp', 'cmpf': 'cmp',
            'bool': 'bool', 'cov': 'cov', 'new': 'create', 'peek': 'purity',
            'read': 'deriv', 'drop': 'purity'}


ARITH = {'new', 'bin', 'bin2', 'binc', 'un', 'math', 'ldexp', 'modf', 'frexp', 'long',
         'double', 'fsum', 'wrapped'}
ALL = ARITH | {'set', 'setbad', 'setref', 'copy', 'deeplist', 'pickle', 'drop', 'read',
               'peek', 'cmp', 'cmpc', 'cmpf', 'bool', 'cov'}
BASE = {'new', 'bin', 'binc', 'un', 'long'}
INIT = [{'s': [1, -1], 't': 'a'}, {'s': [3, -2], 't': ''}]
INVARIANTS = ['TypeOK', 'Identity', 'VarIsItself']
DEEP_INVARIANTS = INVARIANTS + ['SelfCancel', 'CovSym']

# property: actions, reported classes of mismatches, taint, policies
PROFILES = {
    'C01': (ARITH | {'set', 'read', 'drop'}, {'value', 'deriv', 'std', 'joint', 'create'},
            (), ('log', 'none')),
    'C04': (BASE | {'math', 'bin2', 'set', 'cov', 'read', 'copy', 'pickle'},
            {'value*', 'deriv*', 'std*', 'comp*', 'cov*', 'purity*'}, 'nan', ('log', 'none')),
    'C05': (ALL, {'purity'}, (), ('all', 'log')),
    'C06': (BASE | {'set', 'setbad', 'setref', 'read', 'copy'}, {'set', 'std', 'comp'}, (),
            ('log', 'none', 'all')),
    'C07': (BASE | {'copy', 'deeplist', 'set', 'read', 'drop', 'new'},
            {'copy', 'value*', 'deriv*', 'std*', 'comp*', 'joint', 'purity'},
            ('copy', 'deeplist'), ('log', 'none', 'all')),
    'C08': (ARITH - {'math'} | {'pickle', 'set', 'read', 'drop'},
            {'pickle', 'value*', 'deriv*', 'std*', 'comp*', 'joint', 'purity'},
            ('pickle',), ('log', 'none', 'all')),
    'C09': (BASE | {'tiny', 'cmpf', 'bin2', 'math', 'cmp', 'cmpc', 'bool', 'set', 'copy', 'pickle'},
            {'cmp', 'bool'}, (), ('log', 'all')),
    'C10': (BASE | {'math', 'bin2', 'set', 'read', 'copy'}, {'comp', 'std'}, (),
            ('log', 'none')),
    'C11': (BASE | {'math', 'bin2', 'cov', 'set', 'copy', 'pickle'}, {'cov'}, (),
            ('log', 'all')),
}

# Factors applied to all the standard deviations (variances, for C11, must be
# floats too)
SCALES = [1., 2.**-700, 2.**700, 2.**-40]
SCALES_COV = [1., 2.**-300, 2.**300, 2.**-40]


def replay_items(prop, rep, items):
    acts, classes, taint, policies = PROFILES[prop]
    for n, (beh, init) in items:
        rep.traces += 1
        for k, policy in enumerate(policies):
            scales = SCALES_COV if prop in ('C05', 'C11') else SCALES
            scale = scales[(n + k) % len(scales)]
            r = Replayer(beh, policy, scale, taint, init)
            found = r.run()
            rep.case((n,), 1)
            for e in beh['log']:
                rep.count(e['a'])
            for cls, detail in found:
                rep.count('mismatch ' + cls)
                if prop == 'C05' and policy in ('log', 'all') and cls not in classes:
                    # Wrong with observations, right without them?
                    if not Replayer(beh, 'none', scale, taint, init).run():
                        cls = 'purity'
                if cls in classes:
                    rep.mismatch(cls, detail, {'behaviour': beh, 'policy': policy,
                                               'scale': scale, 'init': init})


def check(ctx):
    prop = ctx.prop
    acts = PROFILES[prop][0]
    consts = dict(Sim=True, Acts=acts, MaxVars=12, MaxObjs=16, MaxLen=20, Preset='two')
    total = 12000 if ctx.thorough else 1500
    items = []
    per = total//6
    jobs = [dict(module='Quant', simulate=per, depth=45, seed=ctx.seed*1000+i,
                 constants=dict(consts, MaxLen=[8, 14, 20, 20, 30, 38][i],
                                MaxObjs=[8, 12, 16, 16, 20, 26][i]),
                 invariants=INVARIANTS if not ctx.thorough else DEEP_INVARIANTS)
            for i in range(6)]
    # Exhaustive part: all the behaviours of a small instance
    small = SMALL[prop]
    jobs.append(dict(module='Quant', workers=2, heap='3g',
                     constants=dict(Sim=False, Acts=small[0], MaxVars=4, MaxObjs=6,
                                    MaxLen=small[1] + (1 if ctx.thorough and small[2] else 0),
                                    Preset='two'),
                     invariants=DEEP_INVARIANTS, properties=['Stable']))
    more = layout.jobs(ctx) if prop == 'C08' else []
    widejobs = wide.jobs(ctx) if prop in wide.PROFILES else []
    results = ctx.tlc_many(jobs + more + widejobs, 8)
    layouts = results[len(jobs):len(jobs) + len(more)]
    widely = results[len(jobs) + len(more):]
    results = results[:len(jobs)]
    for r in results[:-1]:
        items += r.items
    exhaustive = results[-1].items
    ctx.notes['simulated_behaviours'] = len(items)
    ctx.notes['exhaustive_behaviours'] = len(exhaustive)
    ctx.notes['exhaustive_bounds'] = '%s, length %d' % (sorted(small[0]), small[1])
    ctx.sample({'behaviour': items[0]['log']})
    ctx.sample({'exhaustive behaviour': exhaustive[len(exhaustive)//2]['log']})
    todo = [(n, (b, INIT)) for n, b in enumerate(items + exhaustive)]
    pmap(ctx, lambda rep, part: replay_items(prop, rep, part), todo, chunks=16,
         timeout=300)
    if more:
        layout.run(ctx, layouts)
    if widely:
        wide.run(ctx, widely)


SMALL = {
    'C01': ({'bin', 'un', 'read'}, 3, False),
    'C04': ({'math', 'bin', 'set'}, 2, False),
    'C05': ({'bin', 'read'}, 3, False),
    'C06': ({'bin', 'set', 'setbad', 'setref'}, 2, False),
    'C07': ({'copy', 'bin', 'deeplist'}, 3, False),
    'C08': ({'pickle', 'bin'}, 2, False),
    'C09': ({'cmp', 'bin', 'bool'}, 3, False),
    'C10': ({'bin', 'un', 'read'}, 3, False),
    'C11': ({'cov', 'bin'}, 2, False),
}
