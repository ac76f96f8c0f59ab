"""Compares the reading of texts with spec/Reading.tla (C16), and what is printed
with what is read back (C17)."""
import itertools
import math
import random
import struct
from decimal import Decimal

from uncertainties import ufloat, ufloat_fromstr
from common import pmap
from fmt import decimal, quantity, read, Unreadable, outcome, where

ALPHABETS = {
    'short': ['3', '0', '.', '(', ')', '+/-', 'e', '-'],
    'pretty': ['3', '.', '(', ')', u'±', u'×10', u'²', u'⁻', 'nan', ' '],
    'signs': ['1', '+', '-', '/', 'e', 'E', u'×10', u'⁺', u'³', ' '],
    'names': ['2', '.', '(', ')', 'nan', 'INF', 'inf', 'n', '+/-', '-', 'e'],
}
PARSE_INV = ['Positive', 'Blanks', 'Parentheses', 'Opposite']
RT_INV = ['ReadBack', 'Documented', 'Exact']


def close(got, exp, signed=True):
    """got: float; exp: Decimal. signed: is the sign of zeros compared?"""
    if not isinstance(got, float):
        return False
    if not exp.is_finite() or got != got or got in (float('inf'), -float('inf')):
        return (got != got and exp.is_nan()) or (not exp.is_nan() and got == float(exp))
    if exp == 0:
        return got == 0 and (not signed or (math.copysign(1, got) < 0) == exp.is_signed())
    return abs(Decimal(got) - exp) <= abs(exp)*Decimal('3e-15')


def parse(text):
    """((n, s), None), or (None, exception)."""
    x, exc = outcome(lambda: ufloat_fromstr(text))
    return ((x.nominal_value, x.std_dev) if exc is None else None), exc


def decide(rep, text, r):
    got, exc = parse(text)
    rep.case(text)
    if r['st'] == 'any':
        rep.count('undecided')
        return
    if r['st'] == 'no':
        rep.count('refused')
        if not isinstance(exc, ValueError):
            rep.mismatch('refused', 'reading of %r: %r instead of ValueError'
                         % (text, got if exc is None else exc), {'text': text})
        return
    rep.count('accepted')
    n, s = decimal(r['n']), decimal(r['s'])
    if exc is not None:
        rep.mismatch('accepted', 'reading of %r: %r instead of %s+/-%s' % (text, exc, n, s),
                     {'text': text})
    elif not close(got[0], Decimal(n)) or not close(got[1], Decimal(s)):
        rep.mismatch('accepted', 'reading of %r: %r instead of %s+/-%s' % (text, got, n, s),
                     {'text': text})


def check_c16(ctx):
    long_ = ctx.thorough
    sizes = {'short': 6 if long_ else 5, 'pretty': 5 if long_ else 4,
             'signs': 5 if long_ else 4, 'names': 5 if long_ else 4}
    jobs = [dict(module='Parse', workers=4 if a == 'short' else 2, invariants=PARSE_INV,
                 timeout=3000, heap='3g',
                 constants=dict(Sim=False, MaxLen=n, Alphabet=a))
            for a, n in sorted(sizes.items())]
    jobs += [dict(module='Parse', simulate=200 if long_ else 20, depth=400, heap='3g',
                  seed=ctx.seed*1000 + i, invariants=PARSE_INV, timeout=3000,
                  constants=dict(Sim=True, MaxLen=0, Alphabet='short')) for i in range(4)]
    res = ctx.tlc_many(jobs, 6)
    for (a, n), r in zip(sorted(sizes.items()), res):
        known = {it['t']: it['r'] for it in r.items}
        ctx.count('all texts of alphabet ' + a, sum(len(ALPHABETS[a])**k for k in range(1, n+1)))

        def all_texts(rep, firsts, a=a, n=n, known=known):
            for first in firsts:
                for k in range(0, n):
                    for rest in itertools.product(ALPHABETS[a], repeat=k):
                        text = first + ''.join(rest)
                        decide(rep, text, known.get(text, {'st': 'no'}))
        pmap(ctx, all_texts, ALPHABETS[a], chunks=len(ALPHABETS[a]), timeout=900)
        ctx.sample([t for t in known if known[t]['st'] == 'ok'][5:8])
        if ctx.enough:
            return
    items = [it for r in res[len(sizes):] for it in r.items]
    ctx.sample([it['t'] for it in items[:6]])

    def work(rep, part):
        for it in part:
            rep.traces += 1
            decide(rep, it['t'], it['r'])
    pmap(ctx, work, items, timeout=600)
    ctx.notes['exhaustive_bounds'] = 'all the texts of at most %r tokens' % sizes


# ---------------------------------------------------------------------------

def read_back(rep, n, it):
    if it['refused']:
        return
    x = quantity(it, n % 3 == 0 and it['n']['k'] == it['s']['k'] == 'fin'
                 and abs(it['s']['e']) < 100)
    rep.case(it['f'])
    rep.traces += 1
    text, exc = outcome(lambda: format(x, it['f']))
    if exc is not None:
        rep.count('left to C14, C15')   # Cannot be printed
        return
    got, exc = parse(text)

    def same(sh):
        return exc is None and close(got[0], Decimal(sh[0])) and close(got[1], Decimal(sh[1]))
    if any(same((decimal(sh['n']), decimal(sh['s']))) for sh in it['shown']):
        return
    if text not in it['texts']:
        # Either another text was printed, which is not judged here, or it was not
        # correctly read back
        try:
            if same(read(text.strip())[:2]):
                rep.count('left to C14, C15')
                return
        except (Unreadable, ArithmeticError):
            pass
    rep.mismatch('read back', '%s: %r is read as %r' % (
        where(it), text, got if exc is None else exc),
        {'n': decimal(it['n']), 's': decimal(it['s']), 'format': it['f']})


def bits(rnd):
    while True:
        x = struct.unpack('d', struct.pack('Q', rnd.getrandbits(64)))[0]
        if x == x and abs(x) <= 1.7e308:
            return x


def repr_back(rep, n, s, var, text=None):
    x = ufloat(n, s) if var else ufloat(n, s) + 0
    rep.case()
    rep.traces += 1
    t, exc = outcome(lambda: repr(x))
    got = None
    if exc is None:
        got, exc = parse(t)

    def eq(a, b):
        return a == b or (a != a and b != b)
    if exc is not None or not eq(got[0], x.nominal_value) or not eq(got[1], x.std_dev):
        rep.mismatch('repr', 'representation of %r+/-%r: %r is read as %r' % (
            n, s, t, got if exc is None else exc), {'n': n, 's': s, 'variable': var})
    elif not eq(x.nominal_value, n) or (var and not eq(x.std_dev, s)):
        rep.mismatch('repr', 'representation of %r+/-%r: %r' % (n, s, t), {'n': n, 's': s})


def check_c17(ctx):
    mult = 8 if ctx.thorough else 1
    jobs = [dict(module='RoundTrip', spec='SpecRT', simulate=60*mult, depth=120,
                 seed=ctx.seed*1000 + i, invariants=RT_INV + ['WithinHalfUnit'], heap='3g',
                 timeout=3000, constants=dict(Sim=True, Len_=60, Family='text'))
            for i in range(4)]
    jobs.append(dict(module='RoundTrip', spec='SpecRT', workers=4, invariants=RT_INV, heap='4g',
                     timeout=3000, constants=dict(Sim=False, Len_=1, Family='any')))
    jobs.append(dict(module='RoundTrip', spec='SpecRT', simulate=60*mult, depth=120,
                     seed=ctx.seed*1000 + 9, invariants=RT_INV, timeout=3000,
                     constants=dict(Sim=True, Len_=60, Family='repr')))
    res = ctx.tlc_many(jobs, 6)
    items = [it for r in res[:-1] for it in r.items]
    ctx.count('cases (all specifications, few numbers)', len(res[-2].items))
    ctx.sample(items[0])
    ctx.sample(res[-1].items[0])

    def work(rep, part):
        for n, it in part:
            read_back(rep, n, it)
    pmap(ctx, work, list(enumerate(items)), timeout=600)

    def work_repr(rep, part):
        rnd = random.Random(ctx.seed*1000 + part[0][0])
        for i, it in part:
            n, s = float(decimal(it['n'])), float(decimal(it['s']))
            repr_back(rep, n, s, True)
            if s == s:
                repr_back(rep, n, s, False)
            # The same with all the bits of the floats
            n, s = bits(rnd), abs(bits(rnd))
            repr_back(rep, n, s, True)
            repr_back(rep, n, s, False)
    pmap(ctx, work_repr, list(enumerate(res[-1].items)), timeout=600)
