"""Replays behaviours of spec/Wide.tla: many variables, with widely different magnitudes."""
import copy
import math
import pickle
import warnings
from fractions import Fraction

import numpy
import uncertainties
from uncertainties import core, ufloat, umath
from common import pmap, same

warnings.simplefilter('ignore')
NAN = float('nan')


def p2(e):
    return Fraction(2)**e


def to_float(f):
    """Fraction to float (correctly rounded; overflows to inf)."""
    try:
        return float(f)
    except OverflowError:
        return math.inf if f > 0 else -math.inf


def root(f):
    """Square root of a Fraction, as a float."""
    if f == 0:
        return 0.
    # f = a/b; scaled by 4^k so that its integer part has at least 120 bits
    k = max(0, 120 - (f.numerator.bit_length() - f.denominator.bit_length()))
    k += k % 2
    return to_float(Fraction(math.isqrt((f.numerator << k)//f.denominator), 1 << (k//2)))


def std_of(k, se):
    return NAN if k == -1 else math.ldexp(float(k), se)


class Abandon(Exception):
    pass


class Replayer(object):
    """policy: 'log', 'none' (reads only at the end) or 'all' (standard deviations of all the
    quantities read after each step)."""

    def __init__(self, beh, policy):
        self.beh = beh
        self.policy = policy
        self.objs = {}
        self.v = {}      # spec variable -> independent variable (None: not known)
        self.w = {}      # spec variable -> quantity 2^ce * v
        self.spec = {}   # spec variable -> [u, ce, k, se, t]
        self.step = 0
        self.tainted = set()

    def bad(self, cls, detail):
        self.found = (cls, detail)
        raise Abandon

    def run(self):
        self.found = None
        try:
            for self.step, e in enumerate(self.beh['log']):
                try:
                    getattr(self, 'do_' + e['a'])(e)
                except Abandon:
                    raise
                except Exception as exc:
                    self.bad({'pickle': 'pickle', 'deepcopy': 'copy', 'copy': 'copy',
                              'set': 'set', 'cov': 'cov', 'cmp': 'cmp'}.get(e['a'], 'deriv'),
                             'step %d (%s) raised %s: %s' % (self.step, e['a'],
                                                             type(exc).__name__, exc))
                if self.policy == 'all':
                    for i, o in self.objs.items():
                        o.std_dev
            self.step = 'end'
            for i, view in enumerate(self.beh['objs'], 1):
                self.check(i, view)
        except Abandon:
            return self.found
        return None

    # -- the variables ---------------------------------------------------------

    def do_vars(self, e):
        for n, x in enumerate(e['w'], 1):
            self.spec[n] = dict(x)
            var = ufloat(math.ldexp(float(x['u']), -x['ce']), std_of(x['k'], x['se']),
                         x['t'] or None)
            self.v[n] = var
            c = x['ce']
            self.w[n] = {'ldexp': lambda: umath.ldexp(var, c), 'mul': lambda: var*2.**c,
                         'rmul': lambda: 2.**c*var, 'div': lambda: var/2.**-c}[e['use']]()

    def name_of(self, var):
        if not hasattr(self, 'names') or len(self.names) != len(self.v):
            self.names = {id(v): n for n, v in self.v.items()}
        n = self.names.get(id(var))
        return n

    def discover(self, i, base, dom):
        """The variables of a copied quantity are known by their (unique) tags."""
        o = self.objs[i]
        byname = {self.spec[v]['t']: base + x for x, v in enumerate(dom, 1)}
        for var in o.derivatives:
            n = byname.get(var.tag)
            if n is not None and n not in self.v and self.name_of(var) is None:
                self.v[n] = var

    # -- calculations ------------------------------------------------------------

    def push(self, e, o, sources=()):
        if not isinstance(o, core.AffineScalarFunc):
            self.bad('value', 'step %d (%s): the result is %r' % (self.step, e['a'], o))
        self.objs[e['r']] = o
        if e['a'] in ('pickle', 'deepcopy', 'copy') or self.tainted.intersection(sources):
            self.tainted.add(e['r'])

    def do_pat(self, e):
        # (Variables that were copied have no w: they are used through their multiples.)
        terms = [(self.w_of(v), s) for v, s in zip(e['idx'], e['sg'])]
        form = e['form']
        if form in ('left', 'iadd', 'mul'):
            r = terms[0][0]*terms[0][1] if terms[0][1] != 1 else +terms[0][0]
            for x, s in terms[1:]:
                if form == 'mul':
                    r = r + s*x
                elif form == 'iadd':
                    if s == 1:
                        r += x
                    elif s == -1:
                        r -= x
                    else:
                        r += 0*x
                else:
                    r = r + x if s == 1 else r - x if s == -1 else r + x*0
        elif form == 'right':
            r = 0.
            for x, s in reversed(terms):
                r = x + r if s == 1 else -x + r if s == -1 else x*0 + r
        elif form in ('sum', 'fsum', 'npsum', 'balanced', 'chunks'):
            l = [x if s == 1 else -x if s == -1 else 0*x for x, s in terms]
            if form == 'sum':
                r = sum(l)
            elif form == 'fsum':
                r = umath.fsum(l)
            elif form == 'npsum':
                r = numpy.array(l, dtype=object).sum()
            elif form == 'chunks':
                r = sum([sum(l[k:k+7]) for k in range(0, len(l), 7)])
            else:
                while len(l) > 1:
                    l = [l[k] + l[k+1] if k+1 < len(l) else l[k] for k in range(0, len(l), 2)]
                r = l[0]
        elif form == 'npdot':
            r = numpy.dot(numpy.array([float(s) for _, s in terms], dtype=object),
                          numpy.array([x for x, _ in terms], dtype=object))
        elif form == 'wrap':
            f = uncertainties.wrap(
                lambda *a: math.fsum(s*x for x, (_, s) in zip(a, terms)),
                ((lambda *a, s=s: float(s)) for _, s in terms))
            r = f(*[x for x, _ in terms])
        if not isinstance(r, core.AffineScalarFunc):
            self.bad('value', 'step %d: %r' % (self.step, r))
        self.push(e, r)

    def w_of(self, v):
        if v not in self.w:
            self.w[v] = self.v[v]*2.**self.spec[v]['ce'] if v in self.v else None
        if self.w[v] is None:
            raise KeyError(v)
        return self.w[v]

    def do_one(self, e):
        self.push(e, self.w_of(e['v'])*1)

    def do_comb(self, e):
        x, y, a, b = self.objs[e['i']], self.objs[e['j']], e['x'], e['y']
        x = x if a == 1 else -x if a == -1 else a*x
        o = x - y if b == -1 else x + y if b == 1 else x + y*b
        self.push(e, o, (e['i'], e['j']))

    def do_cancel(self, e):
        o = self.objs[e['i']]
        for v, c in e['w']:
            o = o - (self.w_of(v) if c == 1 else c*self.w_of(v))
        self.push(e, +o, (e['i'],))

    def do_set(self, e):
        for v, k, se in e['w']:
            self.spec[v]['k'], self.spec[v]['se'] = k, se
            self.v[v].std_dev = std_of(k, se)

    def do_copy(self, e):
        self.push(e, copy.copy(self.objs[e['i']]), (e['i'],))

    def new_spec(self, e):
        for x, v in enumerate(e['dom'], 1):
            self.spec[e['base'] + x] = dict(self.spec[v])

    def do_deepcopy(self, e):
        self.new_spec(e)
        self.push(e, copy.deepcopy(self.objs[e['i']]))
        self.discover(e['r'], e['base'], e['dom'])
        self.need(e, 'copy')

    def need(self, e, cls):
        """The variables with a zero coefficient can be absent: they are then made up."""
        for x, v in enumerate(e['dom'], 1):
            n = e['base'] + x
            if n not in self.v:
                s = self.spec[n]
                self.v[n] = ufloat(math.ldexp(float(s['u']), -s['ce']), std_of(s['k'], s['se']))

    def do_pickle(self, e):
        self.new_spec(e)
        sel = [self.objs[i] for i in e['sel']]
        vs = [self.v[v] for v in e['dom']] if e['withvars'] else []
        sel2, vs2 = pickle.loads(pickle.dumps((sel, vs), e['p']))
        for n, o in enumerate(sel2):
            self.push(dict(e, r=e['r'] + n), o)
        if e['withvars']:
            for x, var in enumerate(vs2, 1):
                self.v[e['base'] + x] = var
                s = self.spec[e['base'] + x]
                if not (same(var.nominal_value, math.ldexp(float(s['u']), -s['ce']))
                        and same(var.std_dev, std_of(s['k'], s['se']))
                        and var.tag == (s['t'] or None)):
                    self.bad('pickle', 'variable %r pickled as %r'
                             % (self.v[e['dom'][x-1]], var))
        else:
            for n in range(len(sel2)):
                self.discover(e['r'] + n, e['base'], e['dom'])
        self.need(e, 'pickle')

    # -- observations ------------------------------------------------------------

    def check(self, i, view):
        o = self.objs[i]
        star = '*' if i in self.tainted else ''
        where = 'object %d at %s: ' % (i, self.step)
        if not (type(o.nominal_value) is float and o.nominal_value == view['n']):
            self.bad('value' + star, where + 'nominal value %r instead of %r'
                     % (o.nominal_value, view['n']))
        d = o.derivatives
        exp = {v: c for v, c in view['c']}
        sd = {v: tuple(s) for (v, _), s in zip(view['c'], view['s'])}
        comps = o.error_components()
        seen = set()
        total, nan = Fraction(0), False
        maybe = False
        for var, x in d.items():
            v = self.name_of(var)
            if v is None or v not in exp:
                if x != 0:
                    self.bad('deriv' + star, where + 'unexpected derivative %r for %r' % (x, var))
                continue
            seen.add(v)
            if x != math.ldexp(float(exp[v]), self.spec[v]['ce']):
                self.bad('deriv' + star, where + 'derivative %r for variable %d instead of %d*2**%d'
                         % (x, v, exp[v], self.spec[v]['ce']))
            k, se = sd[v]
            if var not in comps:
                self.bad('comp' + star, where + 'no component for variable %d' % v)
            c = comps[var]
            if k == -1:
                nan = True
                ok = c != c
            else:
                e = abs(exp[v])*k*p2(self.spec[v]['ce'] + se)
                total += e**2
                ok = same(c, to_float(e))
            if not ok:
                self.bad('comp' + star, where + 'component %r for variable %d (std dev %r,'
                         ' derivative %r)' % (c, v, std_of(k, se), x))
        for v, c in exp.items():
            if c != 0 and v not in seen:
                self.bad('deriv' + star, where + 'no derivative for variable %d' % v)
        for var in comps:
            if var not in d and comps[var] != 0:
                self.bad('comp' + star, where + 'component for another variable')
        s = o.std_dev
        r = NAN if nan else root(total)
        if not same(s, r, 1e-12):
            self.bad('std' + star, where + 'standard deviation %r instead of %r' % (s, r))

    def do_read(self, e):
        if self.policy != 'none':
            self.check(e['i'], e['o'])

    def do_peek(self, e):
        if self.policy == 'none':
            return
        o = self.objs[e['i']]
        w = e['w']
        if w == 'std_dev':
            o.std_dev
        elif w == 'derivatives':
            o.derivatives
        elif w == 'components':
            o.error_components()
        elif w == 'repr':
            repr(o)
        elif w == 'cov':
            core.covariance_matrix([o, o])
        elif w == 'cmp':
            o == o + 1
        elif w == 'pickle':
            pickle.dumps(o)

    def do_cmp(self, e):
        if self.policy == 'none':
            return
        x, y = self.objs[e['i']], self.objs[e['j']]
        gt = not e['lt'] and self.beh['objs'][e['i']-1]['n'] != self.beh['objs'][e['j']-1]['n']
        exp = (e['eq'], not e['eq'], e['lt'], e['lt'] or e['eq'], gt, gt or e['eq'])
        got = (x == y, x != y, x < y, x <= y, x > y, x >= y)
        if got != exp:
            self.bad('cmp', 'step %d: comparisons (== != < <= > >=) of objects %d and %d:'
                     ' %r instead of %r' % (self.step, e['i'], e['j'], got, exp))

    def do_cov(self, e):
        if self.policy == 'none':
            return
        q = e['q']
        n = len(q)
        views = [self.beh['objs'][i-1]['c'] for i in q]
        dev = {}
        nanvars = set()
        for view, s in zip(views, e['dev']):
            for (v, c), (k, se) in zip(view, s):
                dev[v] = k, se
                if k == -1:
                    nanvars.add(v)
        mat = core.covariance_matrix([self.objs[i] for i in q])
        if len(mat) != n or any(len(r) != n for r in mat):
            self.bad('cov', 'shape of the matrix')
        exp = [[None]*n for _ in range(n)]
        # Covariances that are NaN (True), or can be (None)
        nans = [[False]*n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                nan = False
                total = size = Fraction(0)
                for v, a, b in e['o'][i][j]:
                    k, se = dev[v]
                    if k == -1:
                        nan = True
                    else:
                        x = a*b*k*k*p2(2*(self.spec[v]['ce'] + se))
                        total += x
                        size += abs(x)
                both = {v for v, _ in views[i]} & {v for v, _ in views[j]}
                unsure = bool(both & nanvars) and not nan   # zero derivative, NaN
                nans[i][j] = True if nan else None if unsure else False
                exp[i][j] = total
                x = mat[i][j]
                if type(x) is not float and not isinstance(x, numpy.floating):
                    self.bad('cov', 'step %d: covariance of type %s' % (self.step, type(x)))
                if nan:
                    ok = x != x
                else:
                    ok = (unsure and x != x) or (
                        x == x and abs(Fraction(x) - total) <= size*Fraction(1, 10**12))
                if not ok:
                    self.bad('cov', 'step %d: covariance of objects %d and %d: %r instead of %r'
                             % (self.step, q[i], q[j], x, NAN if nan else to_float(total)))
                if not same(mat[i][j], mat[j][i], 0):
                    self.bad('cov', 'the matrix is not symmetric')
        if not n or any(nans[i][i] is None for i in range(n)):
            return
        # (Correlations with a quantity without uncertainty are not defined.)
        corr = core.correlation_matrix([self.objs[i] for i in q])
        for i in range(n):
            for j in range(n):
                if nans[i][i] or nans[j][j]:
                    r = NAN
                elif exp[i][i] > 0 and exp[j][j] > 0:
                    r = root(exp[i][j]**2/exp[i][i]/exp[j][j])
                    r = r if exp[i][j] >= 0 else -r
                else:
                    continue
                x = float(corr[i][j])
                if not (abs(x - r) <= 1e-12 or x != x and r != r):
                    self.bad('cov', 'step %d: correlation of objects %d and %d: %r instead'
                             ' of %r' % (self.step, q[i], q[j], x, r))


BASE = {'pat', 'one', 'comb', 'cancel'}
ALLR = {'flat', 'near', 'wide', 'tiny', 'huge', 'mixed'}
SAFE = {'flat', 'near', 'wide'}
# actions, ranges, reported classes, policies
PROFILES = {
    'C01': (BASE | {'set', 'read', 'peek'}, ALLR, {'value', 'deriv', 'std', 'comp'}, ('log', 'none')),
    'C05': (BASE | {'set', 'swap', 'read', 'peek', 'cov', 'cmp'}, SAFE, {'purity'}, ('log', 'all')),
    'C06': (BASE | {'set', 'swap', 'setall', 'read', 'peek', 'copy'}, ALLR,
            {'set', 'std', 'std*', 'comp', 'comp*'}, ('log', 'none', 'all')),
    'C07': (BASE | {'copy', 'deepcopy', 'set', 'swap', 'read'}, ALLR,
            {'copy', 'value*', 'deriv*', 'comp*', 'std*'}, ('log', 'all')),
    'C08': (BASE | {'pickle', 'set', 'swap', 'read', 'peek'}, ALLR,
            {'pickle', 'value*', 'deriv*', 'comp*', 'std*'}, ('log', 'none')),
    'C09': (BASE | {'cmp', 'set', 'swap', 'peek'}, SAFE, {'cmp'}, ('log',)),
    'C10': (BASE | {'set', 'swap', 'setall', 'read'}, ALLR, {'comp', 'std'}, ('log', 'none')),
    'C11': (BASE | {'cov', 'set', 'swap', 'setall', 'copy'}, SAFE, {'cov'}, ('log', 'all')),
}


def jobs(ctx):
    acts, ranges, _, _ = PROFILES[ctx.prop]
    out = []
    for n, (sizes, total, terms) in enumerate([
            ({1, 2, 3, 5}, 500, 20), ({7, 9, 12, 17, 21}, 260, 60),
            ({30, 33, 65, 70}, 60, 130), ({101, 130, 200, 257, 300}, 16, 300),
            ({1030, 1300}, 5, 1300)]):
        out.append(dict(module='Wide', simulate=total*(6 if ctx.thorough else 1), depth=40,
                        seed=ctx.seed*1000 + 500 + n,
                        constants=dict(Acts=acts, Sizes=sizes, Ranges=ranges, MaxObjs=12,
                                       MaxLen=16 if n < 3 else 10 if n < 4 else 6, MaxTerms=terms),
                        invariants=['TypeOK', 'SelfZero', 'CopiesEqual'] if n < 2 else ['TypeOK'],
                        properties=['Stable'] if n < 2 else []))
    return out


def replay(prop, rep, items):
    _, _, classes, policies = PROFILES[prop]
    for n, beh in items:
        for policy in policies:
            rep.traces += 1
            rep.case(('wide', n), 1)
            for e in beh['log']:
                rep.count('wide ' + e['a'])
            found = Replayer(beh, policy).run()
            if found is None:
                continue
            cls, detail = found
            rep.count('wide mismatch ' + cls)
            if prop == 'C05' and Replayer(beh, 'none').run() is None:
                cls = 'purity'
            if cls in classes:
                rep.mismatch('wide ' + cls, detail, {'wide': beh, 'policy': policy})


def run(ctx, results):
    items = []
    for r in results:
        items += r.items
    ctx.notes['wide_behaviours'] = len(items)
    ctx.notes['wide_variables'] = max(len(b['vars']) for b in items)
    pmap(ctx, lambda rep, part: replay(ctx.prop, rep, part), list(enumerate(items)),
         chunks=16, timeout=300)
