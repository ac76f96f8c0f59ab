"""Compares formatted quantities with the texts of spec/Fmt.tla (C14, C15)."""
import contextlib
import re
from decimal import Decimal, getcontext

from uncertainties import core, ufloat
from common import pmap

getcontext().prec = 120    # (Digits are never lost)

SUP = {ord(a): b for a, b in zip(u'⁰¹²³⁴⁵⁶⁷⁸⁹⁻⁺', '0123456789-+')}
INVARIANTS = ['WithinHalfUnit', 'PdgDigits', 'RequestedDigits', 'Mantissa', 'WidthPads',
              'AtLeastWidth', 'SameNumbers']


def decimal(x):
    """Decimal (text) of a number of the specification."""
    sign = '-' if x['neg'] else ''
    if x['k'] != 'fin':
        return sign + x['k']
    ds = ''.join(map(str, x['ds'])) or '0'
    return '%s%s.%se%d' % (sign, ds[0], ds[1:] or '0', x['e'])


def quantity(it, derived):
    x = ufloat(float(decimal(it['n'])), float(decimal(it['s'])))
    return x + 0 if derived else x


class Unreadable(Exception):
    pass


NUM = r'[-+ ]?(?:\d+(?:\.\d*)?(?:[eE][-+]\d+)?|nan|inf|NAN|INF)'


def number(text):
    d = Decimal(text.strip())
    pos = d.as_tuple().exponent if d.is_finite() else None
    return d, pos


def read(text):
    """(nominal value, std dev, position of the last digit of each) of a text
    in any notation except LaTeX."""
    shift = 0
    percent = text.endswith('%')
    if percent:
        text = text[:-1]
    m = re.match(u'(.*)(?:[eE]([-+]\\d+)|×10([⁻⁰¹²³⁴⁵⁶⁷⁸⁹]+))$', text)
    if m and m.group(1).endswith(')'):
        text = m.group(1)
        shift = int(m.group(2) or m.group(3).translate(SUP))
    m = re.match(r'(%s)\((\d+(?:\.\d*)?|nan|inf|NAN|INF)\)$' % NUM, text)
    if m:
        n, npos = number(m.group(1))
        if '.' in m.group(2) or not m.group(2).isdigit():
            s, spos = number(m.group(2))
        else:
            s, spos = number(m.group(2))
            if s and npos is not None:
                s = s.scaleb(npos)
                spos = npos
        if m.group(2) == '0.':
            spos = npos
    else:
        if text.startswith('(') and text.endswith(')'):
            text = text[1:-1]
        m = re.match(u'(%s)(?:\\+/-|±)(%s)$' % (NUM, NUM), text)
        if not m:
            raise Unreadable(text)
        n, npos = number(m.group(1))
        s, spos = number(m.group(2))
    return (n.scaleb(shift) if n.is_finite() else n, s.scaleb(shift) if s.is_finite() else s,
            None if npos is None else npos + shift, None if spos is None else spos + shift)


def same_dec(got, exp, noisy):
    if not exp.is_finite() or not got.is_finite():
        return (got.is_nan() and exp.is_nan()) or (
            not got.is_nan() and not exp.is_nan() and got == exp)
    return got == exp or (noisy and abs(got - exp) <= abs(exp)*Decimal('1e-13'))


def digits_wrong(text, it):
    """None if the text shows the right numbers."""
    try:
        n, s, npos, spos = read(text)
    except (Unreadable, ArithmeticError) as exc:
        return 'not readable: %r (%r)' % (text, exc)
    for sh in it['shown']:
        if not same_dec(n, Decimal(decimal(sh['n'])), it['noisy']):
            continue
        if not same_dec(s, Decimal(decimal(sh['s'])), it['noisy']):
            continue
        if not sh['nfloat'] and npos != sh['pos']:
            continue
        if not sh['sfloat'] and spos != sh['pos']:
            continue
        return None
    return '%r shows (%s, %s), last digits at %s and %s' % (text, n, s, npos, spos)


def same_but_noise(text, expected):
    """Same texts, apart from the rounding errors of the division by the common
    exponent."""
    num = r'(\d+\.\d+)'
    a, b = re.split(num, text), re.split(num, expected)
    if len(a) != len(b) or a[::2] != b[::2]:
        return False
    for x, y in zip(a[1::2], b[1::2]):
        if x != y and (len(x) < 16 or abs(Decimal(x) - Decimal(y)) > Decimal('1e-14')*Decimal(y)):
            return False
    return True


def outcome(func):
    try:
        return func(), None
    except Exception as exc:
        return None, exc


def where(it):
    return 'format of %s+/-%s with %r%s' % (
        decimal(it['n']), decimal(it['s']), it['f'],
        ', customized: %s' % sorted(it['cust']) if it['cust'] else '')


def replay(it):
    return {'n': decimal(it['n']), 's': decimal(it['s']), 'format': it['f'],
            'customized': sorted(it['cust']), 'texts': sorted(it['texts'])}


def derived(n, it):
    return n % 3 == 0 and it['n']['k'] == it['s']['k'] == 'fin' and abs(it['s']['e']) < 100


def digits_case(rep, n, it):
    x = quantity(it, derived(n, it))
    rep.traces += 1
    rep.case((it['f'], tuple(it['s']['ds'])))
    got, exc = outcome(lambda: format(x, it['f']))
    if it['refused']:
        # A number of digits of 0 on the uncertainty
        if not isinstance(exc, ValueError):
            rep.mismatch('digits', '%s: %r instead of ValueError' % (where(it), got or exc),
                         replay(it))
        return
    if exc is not None:
        rep.mismatch('digits', '%s: raised %r' % (where(it), exc), replay(it))
        return
    if it['short'] and it['n']['k'] != 'fin':
        return      # (The shorthand notation does not give the scale: nan(12))
    d = digits_wrong(got, it)
    if d is not None:
        rep.mismatch('digits', '%s: %s; expected %s' % (where(it), d, sorted(it['texts'])),
                     replay(it))


@contextlib.contextmanager
def customized(what):
    """The global customization described in format_num()."""
    tables = [core.EXP_PRINT, core.GROUP_SYMBOLS]
    saved = [dict(t) for t in tables]
    try:
        if 'exp' in what:
            core.EXP_PRINT['pretty-print'] = lambda e: ' x 10^%d' % e
            core.EXP_PRINT['latex'] = lambda e: r' \cdot 10^{%d}' % e
        if 'group' in what:
            core.GROUP_SYMBOLS['pretty-print'] = ('<', '>')
            core.GROUP_SYMBOLS['latex'] = (r'\big(', r'\big)')
            core.GROUP_SYMBOLS['default'] = ('[', ']')
        yield
    finally:
        for t, s in zip(tables, saved):
            t.clear()
            t.update(s)


def layout_case(rep, n, it):
    if it['cust']:
        rep.count('customized')
    with customized(it['cust']):
        wrong = layout_text(rep, n, it)
    if wrong is None:
        return
    got, exc = wrong
    x = quantity(it, derived(n, it))
    if it['f'] != it['plain'] or it['cust']:
        plain, pexc = outcome(lambda: format(x, it['plain']))
        if pexc is not None or digits_wrong(plain, it) is not None:
            rep.count('left to C14')    # The digits themselves are wrong
            return
    elif exc is not None or digits_wrong(got, it) is not None:
        rep.count('left to C14')
        return
    rep.mismatch('layout', '%s: %r, expected %s' % (
        where(it), got if exc is None else exc, ' or '.join(sorted(it['texts']))), replay(it))


def layout_text(rep, n, it):
    """Text obtained and exception, if they are not as expected."""
    x = quantity(it, derived(n, it))
    rep.traces += 1
    rep.case(it['f'])
    got, exc = outcome(lambda: format(x, it['f']))
    if it['refused']:
        return None      # (C14)
    texts = set(it['texts'])
    if exc is None and (got in texts or (
            it['noisy'] and any(same_but_noise(got, t) for t in texts))):
        if n % 5 == 0:
            others = [x.format(it['f']), ('{:' + it['f'] + '}').format(x)]
            if it['f'] == '':
                others.extend([str(x), '%s' % x])
            if any(o != got for o in others):
                rep.mismatch('layout', '%s: %r with format(), otherwise %r'
                             % (where(it), got, others), replay(it))
        return None
    return got, exc


INVALID = ['.2n', '.2d', '.2Sf', '.1uSe', '10.2fu', '.2fX', '.2f P', '.2uu', '.2ffS', '>>>10', '10.2.3f', '.2uf%', '{<10', 'LSf.2', '.1fSz']


def invalid_case(rep, specs):
    for f in specs:
        for x in [ufloat(1.2, 3.4), ufloat(1.5, 0), ufloat(float('nan'), 1)]:
            rep.case(('invalid', f))
            got, exc = outcome(lambda: format(x, f))
            if not isinstance(exc, ValueError):
                rep.mismatch('layout', 'format %r: %r instead of ValueError' % (
                    f, got if exc is None else exc), {'format': f, 'invalid': True})


def run(ctx, case, families):
    jobs = []
    names = []
    for family, sims, per, depth in families:
        for i in range(sims):
            jobs.append(dict(module='Fmt', simulate=per*(8 if ctx.thorough else 1), depth=2*depth,
                             seed=ctx.seed*1000 + i, invariants=INVARIANTS, heap='3g',
                             timeout=3000,
                             constants=dict(Sim=True, Len_=depth, Family=family)))
            names.append(family + ' (random)')
        if sims == 0:
            jobs.append(dict(module='Fmt', workers=4, invariants=INVARIANTS, heap='4g',
                             timeout=3000, constants=dict(Sim=False, Len_=1, Family=family)))
            names.append(family + ' (all)')
    items = []
    for name, r in zip(names, ctx.tlc_many(jobs, 6)):
        items.extend(r.items)
        ctx.count('cases: ' + name, len(r.items))
        ctx.sample(r.items[len(r.items)//2], 4)

    def work(rep, part):
        for n, it in part:
            case(rep, n, it)
    pmap(ctx, work, list(enumerate(items)), chunks=16, timeout=900)


def check_c14(ctx):
    run(ctx, digits_case, [('digits', 0, 0, 0), ('digits', 3, 60, 60)])
    ctx.notes['exhaustive_bounds'] = (
        '6 nominal values x 153 standard deviations (edges of the rules) x 60 specifications')


def check_c15(ctx):
    run(ctx, layout_case, [('options', 0, 0, 0), ('layout', 0, 0, 0), ('custom', 0, 0, 0),
                            ('any', 4, 60, 60)])
    ctx.notes['exhaustive_bounds'] = (
        '36 pairs of numbers x (all types, options and 3 precisions; all layouts, 3 types; '
        'all customizations, with all the options and 4 types)')

    pmap(ctx, invalid_case, INVALID, chunks=1)
