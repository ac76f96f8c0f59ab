"""Replays behaviours of spec/CorrVals.tla (quantities from a covariance matrix)."""
import math
import warnings
from fractions import Fraction

import numpy
from uncertainties import core, ufloat, covariance_matrix, correlation_matrix
from uncertainties import correlated_values, correlated_values_norm
from common import pmap

warnings.simplefilter('ignore')


class Bad(Exception):
    pass


SCALES = [0, 9, 16, 18]
EPS = 2e-13


def near(x, y, scale):
    return abs(x - y) <= EPS*scale or (scale == 0 and abs(x - y) < 1e-305)


def exact(terms):
    """Covariance of the specification."""
    return sum(Fraction(c, 4**s) for c, s in zip(terms, SCALES))


def root(x):
    return math.sqrt(x)


class Thing(object):
    """Any object can be a tag."""


THINGS = [Thing(), 0, 1.5, ('a', 'tuple'), '', 'été', frozenset([1]), Thing()]


def given_tags(kind, n):
    names = ['tag%d' % i for i in range(n)]
    return {'no': None, 'list': names, 'tuple': tuple(names), 'array': numpy.array(names),
            'same': [['a', 'b'][i % 2] for i in range(n)], 
            'objects': THINGS[:n] + [Thing() for _ in range(n - len(THINGS))]}[kind]


def strided(x):
    x = numpy.array(x)
    big = numpy.full([2*n for n in x.shape], 77, x.dtype)
    part = big[tuple(slice(None, None, 2) for _ in x.shape)]
    part[...] = x
    return part


def readonly(x):
    x = numpy.array(x)
    x.setflags(write=False)
    return x


CONV = {'list': list, 'tuple': tuple, 'array': numpy.array, 'int': numpy.array,
        'fortran': numpy.asfortranarray, 'strided': strided, 'readonly': readonly,
        'npmatrix': numpy.matrix}


def do_block(e, objs):
    n = len(e['nom'])
    unit = [2.**u for u in e['u']]
    cov = [[exact(e['cov'][i][j]) for j in range(n)] for i in range(n)]
    # Standard deviations and correlations, without the units
    sd0 = [root(cov[i][i]) for i in range(n)]
    corr = [[float(cov[i][j])/sd0[i]/sd0[j] if sd0[i] and sd0[j] else 0. for j in range(n)]
            for i in range(n)]
    sd = [s*u for s, u in zip(sd0, unit)]
    cov = [[float(cov[i][j])*unit[i]*unit[j] for j in range(n)] for i in range(n)]
    noms = [v*u for v, u in zip(e['nom'], unit)]
    tags = given_tags(e['tags'], n)
    kw = {'tags': tags} if tags is not None and e['r'] % 2 else {}
    args = (tags,) if tags is not None and not kw else ()
    if e['how'] == 'cov':
        mat = cov
        if e['ty'] == 'int' and all(x == int(x) and abs(x) < 2**60 for row in mat for x in row):
            mat = [[int(x) for x in row] for row in mat]
    else:
        diag = 1. if e['how'] == 'corr1' else 0.
        mat = [[corr[i][j] if i != j else 1. if sd[i] else diag for j in range(n)]
               for i in range(n)]
    given = {'list': lambda m: [list(r) for r in m],
             'tuple': lambda m: tuple(map(tuple, m))}.get(e['ty'], CONV.get(e['ty']))(mat)
    before = given.copy() if isinstance(given, numpy.ndarray) else [list(r) for r in given]
    conv = CONV[e['vt']]
    if e['how'] == 'cov':
        res = correlated_values(conv(noms), given, *args, **kw)
    else:
        res = correlated_values_norm(conv(list(zip(noms, sd))), given, *args, **kw)
    if not numpy.array_equal(numpy.array(given), numpy.array(before)):
        raise Bad('the matrix given was modified')
    if len(res) != n:
        raise Bad('%d quantities created instead of %d' % (len(res), n))
    for i, q in enumerate(res):
        if q.nominal_value != noms[i]:
            raise Bad('nominal value %r instead of %r' % (q.nominal_value, noms[i]))
        if not near(q.std_dev, sd[i], sd[i]):
            raise Bad('standard deviation %r instead of %r' % (q.std_dev, sd[i]))
    check_cov(res, cov, sd, corr)
    found = {}
    for i, q in enumerate(res):
        for v, d in q.derivatives.items():
            found[id(v)] = v.tag
    found = list(found.values())
    if tags is None:
        if any(t is not None for t in found):
            raise Bad('unexpected tags %r' % found)
    else:
        # (Variables that do not contribute can be absent.)
        left = list(tags)
        for t in found:
            for k, u in enumerate(left):
                if t is u or (type(t) is type(u) and t == u):
                    del left[k]
                    break
            else:
                raise Bad('tags %r given, %r found' % (tags, found))
    objs.extend(q/u for q, u in zip(res, unit))


def check_cov(objs, cov, sd, exp):
    got = covariance_matrix(objs)
    n = len(objs)
    for i in range(n):
        for j in range(n):
            if not near(got[i][j], cov[i][j], sd[i]*sd[j]):
                raise Bad('covariance (%d, %d): %r instead of %r'
                          % (i+1, j+1, got[i][j], cov[i][j]))
    if all(s > 0 for s in sd):
        corr = correlation_matrix(objs)
        for i in range(n):
            for j in range(n):
                if not near(corr[i][j], exp[i][j], 1):
                    raise Bad('correlation (%d, %d): %r' % (i+1, j+1, corr[i][j]))


def replay(beh):
    """None, or what differs."""
    objs = []
    e = None
    try:
        for e in beh['log']:
            if e['a'] == 'block':
                do_block(e, objs)
            elif e['a'] == 'lin':
                objs.append(e['x']*objs[e['i']-1] + objs[e['j']-1]*e['y'])
            elif e['a'] == 'mul':
                objs.append(objs[e['i']-1]*objs[e['j']-1])
            elif e['a'] == 'again':
                src = [objs[i-1] for i in e['ix']]
                objs.extend(correlated_values([q.nominal_value for q in src],
                                              covariance_matrix(src)))
        e = 'end'
        for q, n in zip(objs, beh['n']):
            if abs(q.nominal_value - n) > 1e-9*max(1, abs(n)):
                raise Bad('nominal value %r instead of %r' % (q.nominal_value, n))
        # Cancellations in sums (scale of the largest term)
        cov = [[float(exact(x)) for x in row] for row in beh['cov']]
        top = max(max(max(abs(x) for x in row) for row in cov), 1)
        eps = min(1e-9, EPS*(3 + max(abs(n) for n in beh['n']))**2)
        got = covariance_matrix(objs)
        for i in range(len(objs)):
            for j in range(len(objs)):
                if abs(got[i][j] - cov[i][j]) > eps*top:
                    raise Bad('covariance of quantities %d and %d: %r instead of %r'
                              % (i+1, j+1, got[i][j], cov[i][j]))
            s = objs[i].std_dev
            if abs(s*s - cov[i][i]) > eps*top:
                raise Bad('variance of quantity %d: %r instead of %r'
                          % (i+1, s*s, cov[i][i]))
    except Bad as exc:
        return '%s: %s' % (e if isinstance(e, str) else e['a'], exc)
    except Exception as exc:
        return '%r: raised %r' % (e, exc)
    return None


def check(ctx):
    inv = ['Symmetric', 'Positive', 'ExactUncorrelated', 'Minors']
    jobs = []
    total = 4000 if ctx.thorough else 700
    for i in range(6):
        jobs.append(dict(module='CorrVals', simulate=total, depth=12, seed=ctx.seed*1000 + i,
                         invariants=inv if i < 2 or ctx.thorough else [],
                         constants=dict(Sim=True, MaxLen=[2, 4, 6, 6, 8, 9][i],
                                        MaxN=[6, 3, 4, 5, 3, 4][i],
                                        MaxK=[6, 3, 4, 3, 2, 5][i], MaxE=[3, 5, 2, 1, 3, 4][i],
                                        MaxObjs=14)))
    # Many quantities
    for i in range(2):
        jobs.append(dict(module='CorrVals', simulate=600 if ctx.thorough else 60, depth=12,
                         seed=ctx.seed*1000 + 50 + i, invariants=inv,
                         constants=dict(Sim=True, MaxLen=2, MaxN=[20, 40][i], MaxK=[40, 30][i],
                                        MaxE=2, MaxObjs=50)))
    exh = [(1, 2, 2, 2, 2), (1, 3, 2, 1, 3), (2, 2, 1, 1, 4)]
    for ln, n, k, e, m in exh:
        jobs.append(dict(module='CorrVals', workers=2, invariants=inv, heap='3g',
                         constants=dict(Sim=False, MaxLen=ln, MaxN=n, MaxK=k, MaxE=e,
                                        MaxObjs=m)))
    res = ctx.tlc_many(jobs, 8)
    items = [b for r in res for b in r.items]
    ctx.notes['simulated_behaviours'] = sum(len(r.items) for r in res[:8])
    ctx.notes['exhaustive_behaviours'] = [len(r.items) for r in res[8:]]
    ctx.notes['exhaustive_bounds'] = 'steps, size, rank, largest coefficient, objects: %s' % exh
    ctx.sample(res[1].items[0])

    def work(rep, part):
        for b in part:
            rep.traces += 1
            rep.case((len(b['log']), len(b['n']), b['log'][0].get('how')))
            d = replay(b)
            if d:
                rep.mismatch('correlated', d, b)
    pmap(ctx, work, items, chunks=16, timeout=600)
