"""Replays behaviours of spec/Arrays.tla: arrays against scalar calculations."""
import operator
import warnings

import numpy
import uncertainties
from uncertainties import unumpy, umath
from uncertainties.core import AffineScalarFunc, Variable
from common import pmap, same

warnings.simplefilter('ignore')
numpy.seterr(all='ignore')

OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv,
       '**': operator.pow, '%': operator.mod, '//': operator.floordiv, '<': operator.lt,
       '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq,
       '!=': operator.ne, 'neg': operator.neg, 'pos': operator.pos, 'abs': abs}


# Functions with integer results
INTEGERS = ('ceil', 'floor', 'trunc')


class Bad(Exception):
    pass


class Stop(Exception):
    """End of a replay, because an operation is not possible for some element."""


def num(v, t):
    if t == 'i' and not abs(float(v)) <= 100:
        t = 'f'
    return int(float(v)) if t == 'i' else numpy.float64(v) if t == 'np' else float(v)


def nested(values, sh, typ=list):
    if not sh:
        return values[0]
    n = len(values)//sh[0]
    return typ(nested(values[i*n:(i+1)*n], sh[1:], typ) for i in range(sh[0]))


def typed(values, sh, ty, mem):
    """Array of a given type, with some layout in memory."""
    dtype = getattr(numpy, ty, object)
    if ty == 'bool':
        dtype = bool
    a = numpy.array(values, dtype=dtype).reshape(sh)
    if mem == 'F':
        return numpy.array(a, order='F')
    if not sh:
        return a
    if mem == 'strided':
        return numpy.repeat(a, 2, axis=-1)[..., ::2]
    if mem == 'reversed':
        return a[..., ::-1].copy()[..., ::-1]
    return a


def scalars(obj):
    if isinstance(obj, numpy.ndarray):
        return list(obj.flat)
    if isinstance(obj, list):
        return [y for x in obj for y in (scalars(x) if isinstance(x, list) else [x])]
    return [obj]


def boxed(x):
    r = numpy.empty((), dtype=object)
    r[()] = x
    return r


def compare(got, exp):
    """An element and the result of the scalar calculation."""
    if isinstance(exp, tuple):
        if not isinstance(got, tuple) or len(got) != len(exp):
            raise Bad('%r instead of %r' % (got, exp))
        for g, e in zip(got, exp):
            compare(g, e)
        return
    if isinstance(exp, AffineScalarFunc) != isinstance(got, AffineScalarFunc):
        raise Bad('%r (%s) instead of %r' % (got, type(got), exp))
    if not isinstance(exp, AffineScalarFunc):
        if not same(float(got), float(exp), 1e-9):
            raise Bad('%r instead of %r' % (got, exp))
        return
    if got is exp:
        return
    if isinstance(exp, Variable):
        # (The array contains the variable itself)
        raise Bad('%r instead of the variable %r' % (got, exp))
    try:
        exp.std_dev, exp.derivatives
    except OverflowError:
        raise Stop
    if not same(got.nominal_value, exp.nominal_value, 1e-9):
        raise Bad('nominal value %r instead of %r' % (got.nominal_value, exp.nominal_value))
    dg, de = got.derivatives, exp.derivatives
    for v in set(dg) | set(de):
        if not same(dg.get(v, 0.), de.get(v, 0.), 1e-9):
            raise Bad('derivative %r instead of %r' % (dg.get(v, 0.), de.get(v, 0.)))
    if not same(got.std_dev, exp.std_dev, 1e-9):
        raise Bad('standard deviation %r instead of %r' % (got.std_dev, exp.std_dev))


class Replay(object):
    def __init__(self, beh):
        self.beh = beh
        self.nodes = beh['nodes']
        self.vals = []
        self.arrs = []
        self.cur = []    # specifications of the arrays, with their current contents
        self.done = 0

    def run(self):
        e = None
        try:
            for e in self.beh['log']:
                for i, el in zip(e['res'], e['els']):
                    self.cur.append(dict(self.beh['arrs'][i-1], el=list(el)))
                try:
                    self.step(e)
                    self.done += 1
                except Stop:
                    e = 'after an error'
                    self.all()
                    return None
            e = 'at the end'
            self.all()
        except Bad as exc:
            return '%s: %s' % (e, exc)
        except Exception as exc:
            return '%s: raised %r' % (e, exc)
        return None

    # Scalar calculations
    def node(self, k):
        """Value of node k (from 1) or exception."""
        while len(self.vals) < k:
            nd = self.nodes[len(self.vals)]
            if nd['op'] == 'const':
                r = num(nd['v'], nd['t'])
                if nd['t'] == 'np':
                    r = float(r)
            elif nd['op'] == 'var':
                raise RuntimeError('variable not created')
            else:
                args = [self.vals[i-1] for i in nd['a']]
                plain = not any(isinstance(x, AffineScalarFunc) for x in args)
                if nd['op'] in ('**', 'pow') and plain and abs(args[1]) > 40:
                    raise Stop
                try:
                    r = (OPS[nd['op']] if nd['op'] in OPS else getattr(umath, nd['op']))(*args)
                except Exception as exc:
                    if plain:   # (NumPy numbers behave differently)
                        raise Stop
                    r = exc
                # Complex numbers, and powers of integers that can be too large for
                # NumPy: not covered
                if isinstance(r, complex) or (isinstance(r, int) and abs(r) > 2**60
                                              and nd['op'] not in INTEGERS):
                    raise Stop
            self.vals.append(r)
        return self.vals[k-1]

    def step(self, e):
        a = e['a']
        if a == 'create':
            self.create(e)
        elif a == 'extract':
            return self.extract(self.arrs[e['x']-1], self.cur[e['x']-1],
                                e['first'], e['alone'])
        elif a == 'set':
            self.vals[e['n']-1].std_dev = float(e['s'])
            return
        elif a == 'assign':
            return self.assign(e)
        spec = self.cur[e['res'][0]-1]
        errors = []
        last = e['nn']
        for k in range(len(self.vals)+1, last+1):
            r = self.node(k)
            if isinstance(r, Exception):
                errors.append(r)
        if a == 'create':
            return
        try:
            obj = getattr(self, 'do_' + a)(e, spec)
        except Exception as exc:
            if errors and any(type(x) is type(exc) for x in errors):
                raise Stop
            raise
        if errors:
            raise Bad('gave %r instead of raising %r' % (obj, errors[0]))
        if not spec['sh'] and not isinstance(obj, numpy.ndarray):
            obj = boxed(obj)
        self.arrs.append(obj)
        self.check(obj, spec)

    def check(self, obj, spec):
        sh = tuple(spec['sh'])
        k = spec['k']
        if k != 'list':
            if not isinstance(obj, numpy.ndarray) or obj.shape != sh:
                raise Bad('gave %r instead of shape %r' % (obj, sh))
            if k == 'matrix':
                if not isinstance(obj, unumpy.matrix if spec['q'] and spec['use']
                                  else numpy.matrix):
                    raise Bad('gave a %s instead of a matrix' % type(obj))
            elif isinstance(obj, numpy.matrix):
                raise Bad('gave a %s' % type(obj))
        els = scalars(obj)
        if len(els) != len(spec['el']):
            raise Bad('%d elements instead of %d' % (len(els), len(spec['el'])))
        for n, (g, i) in enumerate(zip(els, spec['el'])):
            try:
                compare(g, self.vals[i-1])
            except Bad as exc:
                raise Bad('element %d: %s' % (n, exc))

    def all(self):
        """All the arrays still have the same contents; extraction."""
        for n, (obj, spec) in enumerate(zip(self.arrs, self.cur)):
            try:
                self.check(obj, spec)
                if spec['use']:
                    self.extract(obj, spec, 'ns'[n % 2], False)
            except Stop:
                pass
            except Bad as exc:
                raise Bad('array %d: %s' % (n+1, exc))

    # Creation
    def create(self, e):
        spec = self.cur[e['res'][0]-1]
        sh, sn, how = tuple(spec['sh']), tuple(e['sn']), e['how']
        t = int if how == 'int' else float
        noms, sds = [t(x) for x in e['noms']], [t(float(x)) for x in e['sds']]
        if how == 'typed' and noms:
            n, s = typed(noms, sh, e['tn'], e['mem']), typed(sds, sn, e['ts'], e['mem'])
            if spec['k'] == 'matrix' and e['mem'] == 'strided':
                n = numpy.asmatrix(n)
        elif how in ('ndarray', 'typed') or not noms:
            n = numpy.array(noms, dtype=t).reshape(sh)
            s = numpy.array(sds, dtype=t).reshape(sn)
        elif how == 'npmatrix':
            n, s = numpy.matrix(nested(noms, sh)), numpy.matrix(nested(sds, sn))
        else:
            typ = tuple if how == 'tuple' else list
            n, s = nested(noms, sh, typ), nested(sds, sn, typ)
        before = repr((n, s))
        f = unumpy.umatrix if spec['k'] == 'matrix' else unumpy.uarray
        if how == 'obsolete':
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                obj = f((n, s))
            if not w:
                raise Bad('no warning')
        elif len(noms) % 2:
            obj = f(n, s)
        else:
            obj = f(nominal_values=n, std_devs=s)
        if repr((n, s)) != before:
            raise Bad('arguments modified')
        if not isinstance(obj, unumpy.matrix if spec['k'] == 'matrix' else numpy.ndarray) \
                or obj.shape != sh or obj.dtype != object:
            raise Bad('created %r' % (obj,))
        seen = set(id(v) for v in self.vals)
        for v, i in zip(obj.flat, spec['el']):
            nd = self.nodes[i-1]
            if not isinstance(v, Variable) or id(v) in seen:
                raise Bad('element %r is not a new variable' % (v,))
            seen.add(id(v))
            if not same(v.nominal_value, float(nd['v']), 0) or v.std_dev != float(nd['s']) \
                    or v.tag is not None:
                raise Bad('element %r instead of %s+/-%s' % (v, nd['v'], nd['s']))
            assert len(self.vals) == i-1
            self.vals.append(v)
        self.arrs.append(obj)
        self.check(obj, spec)

    def do_mixed(self, e, spec):
        sh = tuple(spec['sh'])
        els = [self.vals[i-1] for i in spec['el']]
        obj = numpy.empty(sh, dtype=object)
        for i, x in enumerate(els):
            obj.flat[i] = x
        if spec['k'] == 'list':
            return nested(els, sh)
        if spec['k'] == 'matrix':
            return obj.view(unumpy.matrix) if len(els) % 2 else \
                unumpy.matrix(nested(els, sh), dtype=object)
        return obj

    def do_plain(self, e, spec):
        vals = [self.vals[i-1] for i in spec['el']]
        a = numpy.array(vals, dtype={'f': float, 'i': int}[e['ty']]).reshape(spec['sh'])
        if spec['k'] == 'matrix':
            return a.view(unumpy.matrix)
        return a

    # Operations
    def arr(self, i):
        return self.arrs[i-1]

    def do_bin(self, e, spec):
        return OPS[e['f']](self.arr(e['x']), self.arr(e['y']))

    def do_binscalar(self, e, spec):
        s = self.vals[e['s']-1]
        if self.nodes[e['s']-1]['t'] == 'np':
            s = numpy.float64(s)
        x = self.arr(e['x'])
        return OPS[e['f']](*((s, x) if e['left'] else (x, s)))

    def do_matmul(self, e, spec):
        x, y = self.arr(e['x']), self.arr(e['y'])
        return x @ y if e['f'] == '@' else x*y if e['f'] == '*' else numpy.dot(x, y)

    def do_matpow(self, e, spec):
        return self.arr(e['x'])**e['p']

    def do_unary(self, e, spec):
        return OPS[e['f']](self.arr(e['x']))

    def do_func(self, e, spec):
        r = getattr(unumpy, e['f'])(self.arr(e['x']))
        if e['f'] == 'modf':
            return r
        if not isinstance(r, numpy.ndarray):
            raise Bad('gave %r' % (r,))
        # (Integers can be too large for NumPy)
        q = spec['q'] or (e['f'] in INTEGERS and
                          any(abs(self.vals[i-1]) > 2**60 for i in spec['el']))
        if (r.dtype == object) != q:
            raise Bad('gave an array of %s' % r.dtype)
        if e['f'] in ('isnan', 'isinf') and r.dtype != bool:
            raise Bad('gave an array of %s' % r.dtype)
        return r

    def do_func2(self, e, spec):
        y = self.arr(e['y']) if e['y'] else self.vals[e['s']-1]
        return getattr(unumpy, e['f'])(self.arr(e['x']), y)

    def do_funcscalar(self, e, spec):
        return getattr(unumpy, e['f'])(self.vals[e['s']-1])

    def do_reduce(self, e, spec):
        return getattr(self.arr(e['x']), e['f'])(*([e['ax']-1] if e['ax'] else []))

    def do_transpose(self, e, spec):
        return self.arr(e['x']).T

    def do_reshape(self, e, spec):
        return self.arr(e['x']).reshape(spec['sh']).copy()

    def do_index(self, e, spec):
        x = self.arr(e['x'])
        return x[::-1] if e['rev'] else x[e['n']-1]

    def assign(self, e):
        v = self.node(e['s'])
        x = self.arr(e['x'])
        if isinstance(v, Exception):
            raise Stop
        # Existing results must not be found again
        for r in [unumpy.nominal_values(x), unumpy.std_devs(x)]:
            pass
        if isinstance(x, numpy.matrix) and x.size and len(self.arrs) % 2:
            x.nominal_values, x.std_devs
        x[tuple(e['mi'])] = v
        for p, q in e['upd']:
            self.cur[p-1]['el'][q-1] = e['s']
        for obj, spec in zip(self.arrs, self.cur):
            self.check(obj, spec)

    # Extraction
    def extract(self, obj, spec, first, alone):
        exp = {'n': [float(uncertainties.nominal_value(self.vals[i-1])) for i in spec['el']],
               's': [uncertainties.std_dev(self.vals[i-1]) for i in spec['el']]}
        if alone:
            obj, sh = self.vals[spec['el'][0]-1], ()
            exp = {k: v[:1] for k, v in exp.items()}
        else:
            sh = tuple(spec['sh'])
            # (the results of NumPy can be rounded differently, but not by the extraction)
            els = [float(getattr(x, 'nominal_value', x)) for x in scalars(obj)]
            if not all(same(x, y, 1e-9) for x, y in zip(els, exp['n'])):
                raise Bad('elements %r instead of %r' % (els, exp['n']))
            exp['n'] = els
        mat = not alone and isinstance(obj, unumpy.matrix)
        for what in ('ns' if first == 'n' else 'sn'):
            f = unumpy.nominal_values if what == 'n' else unumpy.std_devs
            got = [f(obj)]
            if mat:
                if what == 'n':
                    got.append(obj.nominal_values)
                else:
                    got.append(obj.std_devs)
                    got.append(obj.std_devs())
            for r in got:
                if numpy.shape(r) != sh or numpy.asarray(r).dtype != numpy.float64 or (
                        sh and not isinstance(r, numpy.ndarray)):
                    raise Bad('extraction (%s) gave %r' % (what, r))
                if mat and (not isinstance(r, numpy.matrix) or isinstance(r, unumpy.matrix)):
                    raise Bad('extraction (%s) gave a %s' % (what, type(r)))
                if not mat and isinstance(r, numpy.matrix) and type(obj) is not numpy.matrix:
                    raise Bad('extraction (%s) gave a %s' % (what, type(r)))
                vals = [float(x) for x in numpy.asarray(r).flat]
                # Changing what was extracted has no effect on the array
                # (checked with what follows)
                if isinstance(r, numpy.ndarray) and r.flags.writeable:
                    r[...] = -7.25
                if len(vals) != len(exp[what]) or not all(
                        # (The variance sum may be rounded differently)
                        same(x, y, 0 if what == 'n' else 1e-12)
                        for x, y in zip(vals, exp[what])):
                    raise Bad('extraction (%s) gave %r instead of %r' % (what, vals, exp[what]))


INV = ['Consistent', 'Acyclic', 'SharedAgree']
PROPS = ['Unmodified', 'NodesKept']


def check_c18(ctx):
    total = 6000 if ctx.thorough else 900
    inv = INV
    jobs = []
    for i in range(8):
        jobs.append(dict(
            module='Arrays', simulate=total, depth=30, seed=ctx.seed*1000 + i, invariants=inv,
            properties=PROPS, timeout=800,
            constants=dict(Sim=True, MaxLen=[4, 6, 8, 10, 12, 16, 20, 5][i],
                           MaxDim=[2, 3, 2, 2, 3, 2, 2, 2][i],
                           Dims={0, 1, 2, 3} if i % 4 == 1 else {1, 2, 3} if i < 6 else {2},
                           MaxSize=[9, 12, 9, 6, 8, 9, 4, 4][i], MaxNodes=400)))
    # Large arrays
    for i, dims in enumerate([{1, 2, 600}, {2, 3, 300}, {3, 100, 11}]):
        jobs.append(dict(
            module='Arrays', simulate=(300 if ctx.thorough else 40)*(1 + (i == 1)), depth=30, seed=ctx.seed*1000 + 50 + i,
            invariants=['Consistent'], timeout=800,
            constants=dict(Sim=True, MaxLen=4, MaxDim=2 if i else 1, Dims=dims,
                           MaxSize=1300, MaxNodes=9000)))
    res = ctx.tlc_many(jobs, 8)
    ctx.notes['large_arrays'] = sum(len(r.items) for r in res[8:])
    items = [b for r in res for b in r.items]
    ctx.notes['simulated_behaviours'] = len(items)
    ctx.sample(min(items, key=lambda b: len(b['nodes'])))

    def work(rep, part):
        for b in part:
            rep.traces += 1
            for e in b['log']:
                rep.case((e['a'], e.get('f'), tuple(tuple(b['arrs'][i-1]['sh']) for i in e['res'])))
            r = Replay(b)
            d = r.run()
            rep.count('operations', r.done)
            if r.done < len(b['log']):
                rep.count('stopped')
            if d:
                rep.mismatch('arrays', d, b)
    pmap(ctx, work, items, chunks=16, timeout=600)
