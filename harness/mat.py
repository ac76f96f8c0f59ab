"""Replays cases of spec/Mat.tla: inverse and pseudo-inverse."""
import math
import warnings

import numpy
from uncertainties import ufloat, unumpy
from uncertainties.core import AffineScalarFunc
from uncertainties.unumpy import ulinalg, core as ucore
from common import pmap

warnings.simplefilter('ignore')


class Bad(Exception):
    pass


def container(rows, form):
    """The elements (list of lists) in a container."""
    if form == 'list':
        return [list(r) for r in rows]
    if form == 'npmatrix':
        return numpy.matrix(rows, dtype=object if any(
            isinstance(x, AffineScalarFunc) for r in rows for x in r) else None)
    arr = numpy.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            arr[i, j] = x
    return arr.view(unumpy.matrix) if form == 'umatrix' else arr


def ids(obj):
    els = numpy.asarray(obj, dtype=object).flat if not isinstance(obj, list) \
        else [x for r in obj for x in r]
    return [id(x) if isinstance(x, AffineScalarFunc) else x for x in els]


def types(res, form, has_vars):
    if form in ('list', 'ndarray'):
        if type(res) is not numpy.ndarray:
            raise Bad('gave a %s' % type(res))
    elif not isinstance(res, unumpy.matrix if has_vars else numpy.matrix):
        raise Bad('gave a %s' % type(res))


def nominal(x):
    return float(x.nominal_value) if isinstance(x, AffineScalarFunc) else float(x)


def deriv(x, v):
    return x.derivatives.get(v, 0.) if isinstance(x, AffineScalarFunc) else 0.


def near(got, exp, tol, what):
    """Lists of lists."""
    if got.shape != exp.shape:
        raise Bad('%s: shape %s instead of %s' % (what, got.shape, exp.shape))
    top = numpy.max(numpy.abs(exp)) if exp.size else 0
    if not numpy.all(numpy.abs(got - exp) <= tol*(top or 1)):
        raise Bad('%s: %s instead of %s' % (what, got.tolist(), exp.tolist()))


def noms(res):
    a = numpy.asarray(res, dtype=object)
    return numpy.array([nominal(x) for x in a.flat]).reshape(a.shape)


def ders(res, v):
    a = numpy.asarray(res, dtype=object)
    return numpy.array([deriv(x, v) for x in a.flat]).reshape(a.shape)


def call_pinv(obj, arg):
    if not arg:
        return ulinalg.pinv(obj)
    if arg.startswith('rcond='):
        return ulinalg.pinv(obj, rcond=float(arg[6:]))
    return ulinalg.pinv(obj, float(arg))


WRAPPED = ucore.wrap_array_func(numpy.linalg.inv)


def calc(obj, c):
    if c['f'] == 'inv':
        return ulinalg.inv(obj)
    if c['f'] == 'pinv':
        return call_pinv(obj, c['arg'])
    if c['f'] == 'attr':
        return obj.I if c['arg'] else obj.getI()
    return WRAPPED(obj)


def history(obj, rows, form, c):
    """What happened before, with this container."""
    fill = c['fill']
    if fill == 'again':
        res = calc(obj, c) if c['f'] != 'wrapped' else ulinalg.pinv(obj)
        res[0, 0] = 7.5
    elif fill in ('assigned', 'row'):
        obj = container([[ufloat(1 + 3*(i == j), 0.2) for j in range(len(rows[0]))]
                         for i in range(len(rows))], form)
        try:
            calc(obj, c) if c['f'] != 'wrapped' else ulinalg.pinv(obj)
        except numpy.linalg.LinAlgError:
            pass
        for i, r in enumerate(rows):
            if fill == 'row' and form != 'list':
                for j, x in enumerate(r):
                    obj[i:i+1, j:j+1] = x
            else:
                for j, x in enumerate(r):
                    if form == 'list':
                        obj[i][j] = x
                    else:
                        obj[i, j] = x
    return obj


def regular(b):
    c, r = b['case'], b['r']
    scale = c['scale'] if c['f'] != 'wrapped' else 0
    var = [ufloat(n, float(s)) for n, s in zip(c['vn'], c['sd'])]
    rows = []
    for i, row in enumerate(c['el']):
        out = []
        for j, el in enumerate(row):
            used = [k for k, x in enumerate(el['co']) if x]
            if not used:
                e = el['c'] if (i + j) % 2 else float(el['c'])
            elif len(used) == 1 and el['co'][used[0]] == 1 and el['c'] == 0:
                e = var[used[0]]
            else:
                e = el['c']
                for k in used:
                    e = e + el['co'][k]*var[k] if (i + k) % 2 else var[k]*el['co'][k] + e
            if scale + c['rows'][i]:
                e = e*2.**(scale + c['rows'][i])
            out.append(e)
        rows.append(out)
    form = c['form']
    if c['f'] == 'attr':
        form = 'umatrix'
    obj = container(rows, form)
    has_vars = any(isinstance(x, AffineScalarFunc) for r_ in rows for x in r_)
    if has_vars or form != 'npmatrix':
        obj = history(obj, rows, form, c) if 'singular' not in r else obj
    before = ids(obj)
    a = numpy.array(b['a'], dtype=float)
    if 'singular' in r:
        try:
            res = ulinalg.inv(obj)
        except numpy.linalg.LinAlgError:
            return
        raise Bad('inverse of a singular matrix: %r' % (res,))
    if c['f'] == 'wrapped' and form == 'list':
        obj = container(rows, 'ndarray')
        form, before = 'ndarray', ids(obj)
    res = calc(obj, c)
    if ids(obj) != before:
        raise Bad('argument modified')
    if c['f'] != 'wrapped':
        types(res, form, has_vars)
    # Columns of the result have the opposite scales of the rows
    un = numpy.array([[2.**(scale + x) for x in c['rows']]])
    s = numpy.linalg.svd(a, compute_uv=False)
    cond = s[0]/s[-1]
    tol = 1e-14*cond**2 + 1e-11 if c['f'] != 'wrapped' else 1e-3*cond**2
    num = numpy.array(r['num'], dtype=float)/r['den']
    near(noms(res)*un, num, tol if c['f'] != 'wrapped' else 1e-10, 'values')
    exp = [numpy.array(d, dtype=float)/float(r['den'])**2 for d in r['d']]
    top = max([numpy.max(numpy.abs(d)) for d in exp] + [1e-300])
    for k, v in enumerate(var):
        got = ders(res, v)*un
        if got.shape != num.shape or not numpy.all(numpy.abs(got - exp[k]) <= tol*top):
            raise Bad('derivatives with respect to variable %d: %s instead of %s'
                      % (k+1, got.tolist(), exp[k].tolist()))
    known = set(var)
    for x in numpy.asarray(res, dtype=object).flat:
        if isinstance(x, AffineScalarFunc) and not set(x.derivatives) <= known:
            raise Bad('unknown variables')

    def std():
        want = numpy.sqrt(sum([(d*v.std_dev)**2 for d, v in zip(exp, var)],
                              numpy.zeros(num.shape)))
        got = numpy.asarray(unumpy.std_devs(res))*un
        big = max([v.std_dev for v in var] + [0])
        if not numpy.all(numpy.abs(got - want) <= tol*top*big*len(var)):
            raise Bad('standard deviations: %s instead of %s' % (got.tolist(), want.tolist()))
    std()
    for v in var[::2]:
        v.std_dev = 0.75
    std()

    # Consequences
    if c['f'] == 'inv' and has_vars:
        arr = numpy.array(rows, dtype=object)
        res_arr = numpy.asarray(res)
        n = len(rows)
        # rows of the product have scales that compensate each other
        prod = numpy.dot(res_arr, arr)
        near(noms(prod), numpy.eye(n), tol*n, 'product with the inverse')
        for v in var:
            if not numpy.all(numpy.abs(ders(prod, v)) <= tol*cond*100*max(1, top)*n):
                raise Bad('the product with the inverse is uncertain: %s' % ders(prod, v).tolist())
        back = ulinalg.inv(res)
        types(back, form, has_vars)
        near(noms(back)/un.T, a, tol*cond*cond, 'inverse of the inverse')
        da = [numpy.array([[el['co'][k] for el in row] for row in c['el']], dtype=float)
              for k in range(len(var))]
        big = max([numpy.max(numpy.abs(d)) for d in da] + [1])
        for k, v in enumerate(var):
            if not numpy.all(numpy.abs(ders(back, v)/un.T - da[k]) <= tol*cond**2*big*100):
                raise Bad('derivatives of the inverse of the inverse: %s instead of %s'
                          % ((ders(back, v)/un.T).tolist(), da[k].tolist()))
    if c['f'] == 'pinv' and num.shape[0] != num.shape[1]:
        try:
            ulinalg.inv(obj)
        except numpy.linalg.LinAlgError:
            pass
        else:
            raise Bad('inverse of a matrix that is not square')


def cut(b):
    """Singular values below the cut-off are ignored."""
    c = b['case']
    if c['rc'] == '0' and 99 in c['e']:
        return
    n = len(c['e'])
    u, v = numpy.array(c['u'], dtype=float), numpy.array(c['v'], dtype=float)
    nu, nv = abs(numpy.linalg.norm(u[0])), abs(numpy.linalg.norm(v[0]))
    sv = numpy.array([0. if e == 99 else 2.**e for e in c['e']])
    a = u @ numpy.diag(sv) @ v
    inv = numpy.diag([1/s if k else 0. for s, k in zip(sv, b['r']['kept'])])
    exp = v.T @ inv @ u.T/nu**2/nv**2
    if c['wide'] == 1:
        a, exp = numpy.hstack([a, numpy.zeros((n, 1))]), numpy.vstack([exp, numpy.zeros((1, n))])
    elif c['wide'] == 2:
        a, exp = numpy.vstack([a, numpy.zeros((1, n))]), numpy.hstack([exp, numpy.zeros((n, 1))])
    rows = [[ufloat(x, .1) if (i + j) % 3 else x for j, x in enumerate(r)]
            for i, r in enumerate(a)]
    obj = container(rows, c['form'])
    rc = c['rc']
    if rc == 'default':
        res = obj.I if c['form'] == 'umatrix' and c['wide'] else ulinalg.pinv(obj)
    elif rc.startswith('kw'):
        res = ulinalg.pinv(obj, rcond=2.**int(rc[2:]))
    else:
        res = ulinalg.pinv(obj, 0 if rc == '0' else 2.**int(rc.replace('pos', '')))
    types(res, c['form'], True)
    kept = [s for s, k in zip(sv, b['r']['kept']) if k]
    cond = max(kept)/min(kept) if kept else 1
    near(noms(res), exp, 1e-13*cond + 1e-12, 'values (cut-off)')


def replay(b):
    try:
        if 'cut' in b['case']:
            cut(b)
        else:
            regular(b)
    except Bad as exc:
        return '%s (%s): %s' % (b['case']['f'], b['case']['form'], exc)
    except Exception as exc:
        return '%s (%s): raised %r' % (b['case']['f'], b['case']['form'], exc)
    return None


def check_c19(ctx):
    total = 12000 if ctx.thorough else 1500
    inv = ['InverseOk', 'PinvOk', 'SameAsInverse']
    ways = frozenset({'inv', 'pinv', 'attr', 'wrapped'})
    shapes = [(3, 3, 3, 6, 2), (2, 4, 2, 4, 2), (4, 2, 2, 9, 1), (3, 3, 2, 3, 1), (4, 4, 2, 4, 1),
              (2, 2, 5, 5, 3)]
    jobs = []
    for i, (n, m, e, v, c) in enumerate(shapes):
        w = ways if i != 4 else frozenset({'inv'})
        jobs.append(dict(module='Mat', simulate=total, depth=4, seed=ctx.seed*1000 + i,
                         invariants=inv, timeout=800,
                         constants=dict(Sim=True, MaxN=n, MaxM=m, MaxE=e, MaxV=v, MaxC=c, MaxElem=0,
                                        Ways=w | frozenset({'cut'} if i % 2 else ()))))
    exh = [(2, 2, 2, {'inv', 'pinv'}), (1, 4, 2, {'pinv', 'attr'}), (3, 1, 2, {'pinv', 'attr'})]
    if ctx.thorough:
        exh += [(3, 2, 1, {'pinv'}), (2, 3, 1, {'attr'})]
    for n, m, e, w in exh:
        jobs.append(dict(module='Mat', workers=2, invariants=inv, heap='3g', timeout=800,
                         constants=dict(Sim=False, MaxN=n, MaxM=m, MaxE=e, MaxV=4, MaxC=1, MaxElem=0,
                                        Ways=frozenset(w))))
    for i in range(2):
        jobs.append(dict(module='Mat', simulate=1000 if ctx.thorough else 150, depth=4,
                         seed=ctx.seed*1000 + 50 + i, invariants=inv, timeout=800,
                         constants=dict(Sim=True, MaxN=2, MaxM=2, MaxE=2, MaxV=1, MaxC=1,
                                        MaxElem=[7, 12][i], Ways=ways)))
    res = ctx.tlc_many(jobs, 8)
    ctx.notes['larger_matrices'] = sum(len(r.items) for r in res[-2:])
    items = [b for r in res for b in r.items]
    ctx.notes['simulated_cases'] = sum(len(r.items) for r in res[:6])
    ctx.notes['exhaustive_cases'] = [len(r.items) for r in res[6:-2]]
    ctx.sample(res[0].items[0])

    def work(rep, part):
        for b in part:
            rep.traces += 1
            c = b['case']
            rep.case((c['f'], c['form'], str(b['a'] or c.get('e'))))
            d = replay(b)
            if d:
                rep.mismatch('matrix', d, b)
    pmap(ctx, work, items, chunks=16, timeout=600)
