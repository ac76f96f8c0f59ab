"""Functions and operators against the table of spec/Deriv.tla."""
import decimal
import math
import operator
import warnings
from fractions import Fraction

import numpy
from uncertainties import core, ufloat, umath, UFloat, covariance_matrix
import quant
from common import same, pmap, MachineryError

warnings.simplefilter('ignore')
NAN = float('nan')
INF = float('inf')

OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv,
       '//': operator.floordiv, '%': operator.mod, '**': operator.pow}
IOPS = {'+': operator.iadd, '-': operator.isub, '*': operator.imul,
        '/': operator.itruediv, '//': operator.ifloordiv, '%': operator.imod,
        '**': operator.ipow}
UNARY = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs}
OPERATORS = set(OPS) | set(UNARY)


def digamma(x):
    if x <= 0:
        return digamma(1 - x) - math.pi/math.tan(math.pi*x)
    r = 0.
    while x < 12:
        r -= 1/x
        x += 1
    f = 1/(x*x)
    return r + math.log(x) - 0.5/x - f*(1/12. - f*(1/120. - f*(1/252. - f*(1/240. - f/132.))))


PRIM = {'digamma': digamma, 'coshx': math.cosh}


def term(t, args):
    """Value of a term of the specification."""
    k = t[0]
    if k == 'q':
        return t[1]/float(t[2])
    if k == 'x':
        return args[0]
    if k == 'y':
        return args[1]
    if k == 'pi':
        return math.pi
    if k == 'num':
        return term(t[1], args)
    if k == 'right':
        return float(t[1])
    if k == 'hyp':
        return math.sqrt(math.fsum((n/float(d))**2 for n, d in t[1]))
    if k == 'f':
        v = term(t[2], args)
        try:
            return PRIM.get(t[1], getattr(math, t[1], None))(v)
        except OverflowError:
            return INF
    a, b = term(t[1], args), term(t[2], args)
    if k == '+':
        return a + b
    if k == '-':
        return a - b
    if k == '*':
        return a*b
    if k == '/':
        return a/b
    if k == '^':
        return a**b
    raise MachineryError('term %r' % (t,))


def value(q):
    if len(q) == 4:     # next to n/d
        x = q[0]/float(q[1])
        return x if not q[3] else math.nextafter(x, q[3]*INF)
    if len(q) == 3:     # n/d * 10^e
        return float(Fraction(q[0], q[1])*Fraction(10)**q[2])
    n, d = q
    if d == 0:
        return INF if n > 0 else -INF if n < 0 else NAN
    return n/float(d)


def functions(f):
    """(function with uncertainties, reference function on floats)"""
    if f in OPS:
        return OPS[f], OPS[f]
    if f in UNARY:
        return UNARY[f], UNARY[f]
    if f == 'log2args':
        return umath.log, math.log
    if f in ('hypot1', 'hypot3'):
        return umath.hypot, math.hypot
    if f == 'fsum':
        return fsum_somehow, (lambda *a: math.fsum(a))
    if f == 'ldexp':
        return ((lambda x, i: umath.ldexp(x, int(i))), (lambda x, i: math.ldexp(x, int(i))))
    return getattr(umath, f), getattr(math, f)


FSUM_CALLS = [0]


def fsum_somehow(*args):
    """Sum of any kind of sequence, with any number of zeros."""
    FSUM_CALLS[0] += 1
    n = FSUM_CALLS[0]
    if n % 40 == 0:
        many = [0.]*(3000 if n % 80 else 12000)
        return umath.fsum(many + list(args) if n % 3 else args[:1] + tuple(many) + args[1:])
    return umath.fsum((list, tuple, iter)[n % 3](args))


def const_types(x, f, pos):
    """The ways of giving the constant x."""
    types = [float, numpy.float64]
    if x == x and abs(x) < 1e9:
        if x == int(x):
            types += [int, numpy.int64]
        if float(numpy.float32(x)) == x:
            types.append(numpy.float32)
    if x in (0., 1.):
        types.append(bool)
    if f == '**' and x == x and abs(x) != INF:
        types.append(Fraction)
    return types


SIGMA = [0.25, 0.5, 0.125]


def is_big(case):
    return any(len(q) == 3 for q in case['x'])


def sigma(case, i, x):
    """Standard deviation of a variable: large and small numbers have large and
    small uncertainties."""
    return abs(x)/8 if is_big(case) and x else SIGMA[i]


class Args(object):
    """The arguments of a case, in the real code."""

    def __init__(self, case, n):
        f = case['f']
        self.floats = [value(q) for q in case['x']]
        self.args = []
        self.vars = []          # variable behind each argument
        for i, (x, m) in enumerate(zip(self.floats, case['m'])):
            v = None
            if m == 'S':
                v = self.vars[0]
                a = self.args[0]
            elif m in 'VW':
                x = self.floats[i] = -0.
                v = a = ufloat(x, SIGMA[i])
                if m == 'W':
                    v, a = None, x
            elif m == 'U':
                v = a = ufloat(x, sigma(case, i, x))
            elif m == 'Z':
                v = a = ufloat(x, 0)
            elif m == 'D':
                v = ufloat(x, sigma(case, i, x))
                a = 2*v - v
            elif m == 'K':
                a = core.to_affine_scalar(x)
            else:
                types = const_types(x, f, i)
                ty = types[n % len(types)]
                a = ty(int(x)) if ty in (bool, int, numpy.int64) else ty(x)
                n //= len(types)
            self.args.append(a)
            self.vars.append(v)


def outcome(func, args):
    try:
        return 'value', func(*args)
    except Exception as e:
        return 'error', e


def check_case(rep, case, n, prop):
    f = case['f']
    desc = '%s%r %s' % (f, tuple(value(q) for q in case['x']), ','.join(case['m']))
    func, ref = functions(f)
    a = Args(case, n)
    shown = '%s, args %r' % (desc, [(type(z).__name__, getattr(z, 'nominal_value', z))
                                    for z in a.args])

    def bad(clause, detail):
        rep.mismatch(clause, '%s: %s' % (shown, detail), dict(case, n=n))

    plain = all(m in 'CW' for m in case['m'])
    if plain and f in OPERATORS:
        return
    ref_args = a.args if plain else a.floats
    rk, rv = outcome(ref, ref_args)
    if rk == 'value' and isinstance(rv, complex):
        rk, rv = 'error', ValueError('complex')
    before = [snapshot(z) for z in a.args]
    k, r = outcome(func, a.args)
    rep.case((f, tuple(case['m'])))
    if rk == 'error':
        if case['dom'] == 'yes' and not plain:
            raise MachineryError('%s: the reference raises %r' % (desc, rv))
        if k != 'error':
            return bad('exception', 'gave %r instead of raising %r' % (r, rv))
        if not isinstance(r, type(rv)):
            return bad('exception', 'raised %r instead of %r' % (r, rv))
        return
    if k == 'error':
        return bad('value', 'raised %r' % (r,))
    if case['dom'] == 'no' and not plain:
        raise MachineryError('%s is defined in the reference' % desc)
    if [snapshot(z) for z in a.args] != before:
        return bad('operands', 'operands modified')
    # Several results: the first one is differentiable
    if isinstance(rv, tuple):
        if not isinstance(r, tuple) or len(r) != len(rv):
            return bad('value', 'gave %r, not %d results' % (r, len(rv)))
        if not identical(r[1], rv[1]):
            return bad('value', 'second result is %r instead of %r' % (r[1], rv[1]))
        r, rv = r[0], rv[0]
    if case['plain'] or not isinstance(r, UFloat):
        if not case['plain'] and any(m not in 'CKW' for m in case['m']):
            return bad('value', 'gave %r: not a quantity' % (r,))
        if not identical(r, rv) and not (f in OPERATORS or 'K' in case['m']):
            return bad('value', 'gave %r instead of %r' % (r, rv))
        return
    if type(r.nominal_value) is not float:
        return bad('value', 'nominal value of type %s' % type(r.nominal_value))
    if not identical(r.nominal_value, float(rv)):
        return bad('value', 'nominal value %r instead of %r' % (r.nominal_value, rv))
    if case['dom'] != 'yes':
        return
    (check_big if is_big(case) else check_result)(case, a, r, bad)


def identical(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float) and not a and not b:     # Sign of zeros
        return math.copysign(1, a) == math.copysign(1, b)
    return a == b or (a != a and b != b)


def snapshot(z):
    if isinstance(z, UFloat):
        return (repr(z.nominal_value), repr(z.std_dev),
                tuple(sorted(map(repr, z.derivatives.values()))))
    return repr(z)


def expected(case, a):
    """{variable: (derivative or None if undefined, looser)}"""
    exp = {}
    for t, v in zip(case['d'], a.vars):
        if v is None or t == ['none']:
            continue
        d = None if t == ['undef'] else term(t, a.floats)
        loose = t[0] == 'num'
        if v in exp:
            d0, l0 = exp[v]
            d = None if d is None or d0 is None else d + d0
            loose |= l0
        exp[v] = (d, loose)
    return exp


DEC = decimal.Context(prec=450, Emax=decimal.MAX_EMAX, Emin=decimal.MIN_EMIN,
                      traps=[decimal.InvalidOperation, decimal.DivisionByZero])
DPI = decimal.Decimal('3.14159265358979323846264338327950288419716939937510582097494459')


def dterm(t, args):
    """Like term(), for numbers of any magnitude (as Decimal)."""
    k = t[0]
    D = decimal.Decimal
    if k == 'q':
        return DEC.divide(D(t[1]), D(t[2]))
    if k in 'xy':
        return args['xy'.index(k)]
    if k == 'pi':
        return DPI
    if k == 'num':
        return dterm(t[1], args)
    if k == 'right':
        return D(t[1])
    if k == 'f':
        if t[2][0] == 'f' and t[2][2] == ['x']:
            square = DEC.multiply(args[0], args[0])
            if (t[1], t[2][1]) == ('cosh', 'asinh'):
                return DEC.sqrt(DEC.add(D(1), square))
            if (t[1], t[2][1]) == ('cos', 'atan'):
                return DEC.divide(D(1), DEC.sqrt(DEC.add(D(1), square)))
            if (t[1], t[2][1]) == ('cos', 'asin'):
                return DEC.sqrt(DEC.subtract(D(1), square))
        v = dterm(t[2], args)
        if t[1] == 'sqrt':
            return DEC.sqrt(v)
        if t[1] == 'exp':
            return DEC.exp(v)
        if t[1] == 'log':
            return DEC.ln(v)
        if t[1] == 'coshx':
            return DEC.divide(DEC.add(DEC.exp(v), DEC.exp(-v)), D(2))
        if t[1] in ('sin', 'cos'):
            return D(getattr(math, t[1])(float(v)))
        raise MachineryError('term %r' % (t,))
    a, b = dterm(t[1], args), dterm(t[2], args)
    if k == '^' and a < 0 and b != b.to_integral_value():
        raise MachineryError('term %r' % (t,))
    return {'+': DEC.add, '-': DEC.subtract, '*': DEC.multiply, '/': DEC.divide,
            '^': DEC.power}[k](a, b)


def close(got, d, rel=1e-7):
    """Is the float got the Decimal d?"""
    if got != got or math.isinf(got):
        return False
    if abs(d) < decimal.Decimal('1e-290'):
        return abs(got) < 1e-289
    return abs(DEC.subtract(decimal.Decimal(got), d)) <= abs(d)*decimal.Decimal(rel)


def check_big(case, a, r, bad):
    """Like check_result(), for very large or very small numbers."""
    D = decimal.Decimal
    try:
        ders = dict(r.derivatives)
        std = r.std_dev
        comps = r.error_components()
    except Exception as e:
        return bad('deriv', 'reading the result raised %r' % (e,))
    args = [D(x) for x in a.floats]
    var = D(0)
    over = False
    for t, v in zip(case['d'], a.vars):
        if v is None or t == ['none']:
            continue
        got = ders.pop(v, 0.)
        if t in (['over'], ['undef']):
            if not (got != got or math.isinf(got)):
                return bad('undefined', 'derivative %r instead of NaN or infinity' % got)
            over |= bool(v.std_dev)
            if not v.std_dev and comps.get(v, 0.) != 0:
                return bad('undefined', 'error component %r of an exact variable' % comps[v])
            continue
        d = (DEC.divide(D(float(r.nominal_value)), args[0]) if t == ['scale']
             else dterm(t, args))
        rel = 1e-4 if t[0] == 'num' else 1e-7
        c = abs(DEC.multiply(d, D(float(v.std_dev))))
        if not close(got, d, rel):
            return bad('deriv', 'derivative %r instead of %.15e' % (got, d))
        if not close(comps.get(v, 0.), c, rel) and abs(d) > D('1e-290'):
            return bad('deriv', 'error component %r instead of %.15e' % (comps.get(v), c))
        if abs(d) > D('1e-290'):
            var = DEC.add(var, DEC.multiply(c, c))
        elif c > D('1e-290'):
            return None     # derivative too small for a float
    for v, d in ders.items():
        if d != 0:
            return bad('deriv', 'unexpected derivative %r' % d)
    if over:
        if not (std != std or math.isinf(std)):
            return bad('undefined', 'standard deviation %r instead of NaN or infinity' % std)
    elif not close(std, DEC.sqrt(var), 1e-4):
        return bad('deriv', 'standard deviation %r instead of %.15e' % (std, DEC.sqrt(var)))
    return None


def check_result(case, a, r, bad):
    exp = expected(case, a)
    try:
        ders = dict(r.derivatives)
        std = r.std_dev
        comps = r.error_components()
    except Exception as e:
        return bad('deriv', 'reading the result raised %r' % (e,))
    var = 0.
    loose = False
    for v, (d, l) in exp.items():
        got = ders.pop(v, 0.)
        loose |= l
        rel, ab = (1e-5, 1e-6) if l else (1e-7, 1e-13)
        if d is None:
            if v.std_dev and got == got:
                return bad('undefined', 'derivative %r instead of NaN' % got)
            var += NAN if v.std_dev else 0.
            c = NAN if v.std_dev else 0.
        else:
            if not same(got, d, rel, ab):
                return bad('deriv', 'derivative %r instead of %r' % (got, d))
            var += (d*v.std_dev)**2
            c = abs(d*v.std_dev)
        if not same(comps.get(v, 0.), c, rel, ab):
            return bad('undefined' if d is None else 'deriv',
                       'error component %r instead of %r' % (comps.get(v), c))
    for v, d in ders.items():
        if d != 0:
            return bad('deriv', 'unexpected derivative %r' % d)
    s = math.sqrt(var)
    if (case['std'] == 'nan') != (s != s):
        raise MachineryError('NaN rule: %r' % case)
    if not same(std, s, 1e-5 if loose else 1e-7, 1e-6 if loose else 1e-13):
        return bad('undefined' if s != s or None in [d for d, l in exp.values()] else 'deriv',
                   'standard deviation %r instead of %r' % (std, s))
    return None


# ---------------------------------------------------------------------------

def has_undef(case):
    return (['undef'] in case['d'] or ['over'] in case['d']) and case['dom'] == 'yes' and not case['plain']


def families(ctx, names):
    import zlib
    jobs = []
    nr = 150 if ctx.thorough else 12
    for name in names:
        groups = [[]]
        if name in ('f2', 'f2r'):
            groups = [['atan2', 'copysign'], ['hypot', 'fmod'], ['pow', 'log2args']]
        elif name in ('op', 'opr'):
            groups = [['+', '-'], ['*', '/'], ['//', '%'], ['**']]
        for g in groups:
            jobs.append(dict(module='Deriv', workers=2, seed=ctx.seed, invariants=['Total'],
                             heap='3g', timeout=850,
                             constants=dict(Sim=True, Family=name, Funs=frozenset(g),
                                            NRandom=nr*10 if name in ('f2r', 'opr') else nr)))
    items = []
    for r in ctx.tlc_many(jobs, 8):
        items += r.items
    items.sort(key=repr)
    for i, c in enumerate(items):
        c['fam'] = zlib.crc32(repr(c).encode()) % 9973
    ctx.notes['cases'] = len(items)
    ctx.notes['families'] = list(names)
    for i in (len(items)//5, len(items)//2):
        ctx.sample({k: v for k, v in items[i].items() if k != 'fam'})
    return items


def self_check(items):
    """The table against numerical differentiation (of the math module)."""
    n = 0
    for c in items:
        if c['dom'] != 'yes' or c['plain'] or c['fam'] % 4 or is_big(c):
            continue
        f = c['f']
        if f in ('copysign', 'abs', 'fabs', '//', 'modf', 'frexp') or 'S' in c['m']:
            continue
        ref = functions(f)[1]
        xs = [value(q) for q in c['x']]
        for i, t in enumerate(c['d']):
            if t in (['none'], ['undef']) or t[0] == 'right':
                continue
            h = 1e-5*max(abs(xs[i]), 1e-3)
            try:
                lo, hi = [ref(*(xs[:i] + [xs[i] + k*h] + xs[i+1:])) for k in (-1, 1)]
                d = term(t, xs)
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            if isinstance(lo, complex) or isinstance(hi, complex):
                continue
            num = (hi - lo)/(2*h)
            scale = max(abs(lo), abs(hi), 1)*1e-16/h
            tol = 1e-3*max(abs(d), abs(num)) + 1e3*scale + 1e-6
            near = min([abs(abs(xs[i]) - z) for z in (0, 1)] + [
                abs(xs[i] - round(xs[i]))]) < 5e-3
            if not near and abs(num - d) > tol and f not in ('%', 'fmod'):
                raise MachineryError('table of derivatives: %r: %r, %r' % (c, d, num))
            n += 1
    return n


def run(ctx, names, keep, clauses, after=None):
    items = [c for c in families(ctx, names) if keep(c)]
    ctx.notes['derivatives_cross_checked'] = self_check(items)
    ctx.notes['cases_kept'] = len(items)

    def work(rep, part):
        for c in part:
            rep.traces += 1
            r2 = type(rep)()
            check_case(r2, c, c['fam'], ctx.prop)
            if ctx.thorough:
                for extra in (1, 2, 3, 4, 5):
                    check_case(r2, c, c['fam'] + extra, ctx.prop)
            rep.evaluations += r2.evaluations
            rep.distinct |= r2.distinct
            for m in r2.mismatches:
                if m[0] in clauses:
                    rep.mismatch(*m)
            if after:
                after(rep, c)
    pmap(ctx, work, items, chunks=16, timeout=600)


def augmented(rep, c):
    """Augmented assignments give the same as the operators; constants on
    both sides are covered by the cases."""
    if c['f'] not in IOPS or c['fam'] % 3:
        return
    a = Args(c, c['fam'])
    if not isinstance(a.args[0], UFloat):
        return
    before = snapshot(a.args[0])
    k1, r1 = outcome(OPS[c['f']], a.args)
    k2, r2 = outcome(IOPS[c['f']], a.args)
    rep.case()
    if k1 != k2 or (k1 == 'value' and (snapshot(r1) != snapshot(r2)
                                       or r2 is a.args[0])) \
            or (k1 == 'error' and type(r1) is not type(r2)):
        rep.mismatch('augmented', '%s= gives %r instead of %r' % (c['f'], r2, r1), c)
    if snapshot(a.args[0]) != before:
        rep.mismatch('augmented', '%s= modified its operand' % c['f'], c)


def check_c02(ctx):
    run(ctx, ['op', 'opr', 'inf', 'f1', 'big', 'quo', 'edge'],
        lambda c: c['f'] in OPERATORS and not has_undef(c),
        {'value', 'deriv', 'exception', 'operands', 'undefined'}, augmented)


def check_c03(ctx):
    run(ctx, ['f1', 'f2', 'f2r', 'sp', 'inf', 'big', 'quo', 'edge'],
        lambda c: c['f'] not in OPERATORS and not has_undef(c),
        {'value', 'deriv', 'exception', 'operands', 'undefined'})
    more_c03(ctx)


def more_c03(ctx):
    """Integers, truth values and the rest of the interface."""
    for n in range(15):
        if umath.factorial(n) != math.factorial(n):
            ctx.violation('value', 'factorial(%d)' % n, {'n': n})
    for f in ('isinf', 'isnan', 'floor', 'ceil', 'trunc'):
        for x in (0., -0.5, 2.5, 3., -7.25, 1e15):
            for arg in (ufloat(x, 0.1), 2*ufloat(x, 0.1) - x, x):
                r = getattr(umath, f)(arg)
                e = getattr(math, f)(arg.nominal_value if isinstance(arg, UFloat) else x)
                ctx.case((f, type(arg).__name__))
                if type(r) is not type(e) or r != e:
                    ctx.violation('value', '%s(%r) = %r' % (f, arg, r), {'f': f, 'x': x})


def later_c04(rep, c):
    """What happens to the results later."""
    if is_big(c):
        return
    func, ref = functions(c['f'])
    a = Args(c, 0)

    def bad(detail):
        rep.mismatch('later', '%s%r %s: %s' % (c['f'], tuple(a.floats), c['m'], detail), c)

    try:
        r = func(*a.args)
        w = ufloat(1.5, 0.5)
        combos = [r + w, w - r, 2*r + w, w + umath.sin(r)*1., r*1 + w*1, w + (r - r/2.)]
        rep.case()
        exp = expected(c, a)
        nan = any(d is None and v.std_dev for v, (d, l) in exp.items())
        rest = math.fsum((d*v.std_dev)**2 for v, (d, l) in exp.items() if d is not None)
        undef = [v for v, (d, l) in exp.items() if d is None]
        for n, q in enumerate(combos):
            s = q.std_dev
            if nan and s == s:
                return bad('combination %d has standard deviation %r, not NaN' % (n, s))
            if not nan:
                f = [1, 1, 4, None, 1, 0.25][n]
                if f is None and rest:
                    continue
                e = math.sqrt(0.25 + (f or 0)*rest)
                if not same(s, e, 1e-6):
                    return bad('combination %d has standard deviation %r instead of %r'
                               % (n, s, e))
        if not nan:
            q = combos[0]
            m = covariance_matrix([q, w, r])
            e = [[0.25 + rest, 0.25, rest], [0.25, 0.25, 0.], [rest, 0., rest]]
            if not all(same(m[i][j], e[i][j], 1e-6, 1e-12) for i in range(3)
                       for j in range(3)):
                return bad('covariance matrix %r instead of %r' % (m, e))
            # The exact variables become uncertain, then exact again
            for v in undef:
                v.std_dev = 0.5
                if q.std_dev == q.std_dev or r.std_dev == r.std_dev:
                    return bad('not NaN after the standard deviation was set')
                m = covariance_matrix([q, w, r])
                if m[2][2] == m[2][2] or m[0][2] == m[0][2]:
                    return bad('covariances %r after the standard deviation was set' % (m,))
                if not same(m[0][1], 0.25) or not same(m[1][2], 0.):
                    return bad('unrelated covariances %r' % (m,))
                v.std_dev = 0
            if not same(q.std_dev, math.sqrt(0.25 + rest), 1e-6):
                return bad('not as before once the variable is exact again')
    except Exception as e:
        return bad('raised %r' % (e,))


def has_right(c):
    """Derivatives at 0 that are one-sided by convention."""
    return any(t[0] == 'right' for t in c['d'])


def check_c04(ctx):
    run(ctx, ['f1', 'f2', 'op', 'sp', 'big'], lambda c: has_undef(c) or has_right(c),
        {'value', 'deriv', 'operands', 'undefined', 'exception'}, later_c04)
    if not ctx.enough:
        quant.check(ctx)
