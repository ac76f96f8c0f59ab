"""C21: the updater of user code, against Fixers.tla."""
import ast
import io
import os
import re
import shutil
import subprocess
import sys
import tempfile
import tokenize
import warnings

import common


def program(lines, field):
    out = []
    for l in lines:
        text = l[field]
        if field == 'old':
            text = text.replace('~', '')
        out.append('    ' * l['i'] + text if text else '')
    return '\n'.join(out) + '\n'


# Free spacing and comments in updated calls, and commas after the last argument
SOFT = r'(?:\s|,|#[^\n]*\n)*'


def pattern(lines):
    """Regular expression of the expected text (None: only known up to parentheses)."""
    out = []
    for l in lines:
        if not l['exact'] and '\n' in l['old']:
            return None
        text = l['new']
        if text == l['old']:
            text = text.replace('~', '')
        out.append(SOFT.join(re.escape(p) for p in (
            '    ' * l['i'] + text if text else '').split('~')))
    return '\n'.join(out) + '\n'


def tree(text):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return ast.dump(ast.parse(text))


def comments(text):
    return [t.string for t in tokenize.generate_tokens(io.StringIO(text).readline)
            if t.type == tokenize.COMMENT]


_tool = None


def refactor(text):
    global _tool
    if _tool is None:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            from lib2to3 import refactor as r
            fixers = r.get_fixers_from_package('uncertainties.lib1to2.fixes')
            _tool = r.RefactoringTool(fixers)
    return str(_tool.refactor_string(text, 'program'))


def judge(rep, lines, old, out):
    """Mismatch of an updated program with the specification, if any."""
    expected = program(lines, 'new').replace('~', '')
    replay = {'program': old, 'expected': expected, 'obtained': out}
    try:
        got = tree(out)
    except SyntaxError as e:
        return 'invalid-code', 'the updated code is invalid (%s)' % e, replay
    if got != tree(expected):
        return 'meaning', 'the updated code is not the expected one', replay
    pat = pattern(lines)
    if pat is not None and not re.fullmatch(pat, out):
        return 'layout', 'spacing or comments were modified outside of the updated calls', replay
    # Comments in the calls themselves (they start with "# in:") can disappear with what
    # they follow, but nothing else can happen to comments:
    if ([c for c in comments(out) if not c.startswith('# in:')]
            != [c for c in comments(old) if not c.startswith('# in:')]):
        return 'comments', 'comments were modified', replay
    remaining = iter(comments(old))
    if not all(c in remaining for c in comments(out)):
        return 'comments', 'comments in a call were modified', replay
    return None


def minimal(lines, fails):
    """The first line that fails alone, if there is one."""
    for l in lines:
        one = [dict(l, i=0)]
        try:
            tree(program(one, 'old'))
        except SyntaxError:
            one.append({'i': 1, 'old': 'pass', 'new': 'pass', 'exact': True})
        try:
            if fails(one):
                return one
        except Exception:
            pass
    return lines


def work(rep, progs):
    for lines in progs:
        old = program(lines, 'old')
        # Multi-line texts: the specification and the harness must agree with Python
        tree(old)

        def run(ls):
            o = program(ls, 'old')
            try:
                out = refactor(o)
            except Exception as e:
                return 'exception', 'the updater failed: %r' % e, {'program': o}
            bad = judge(rep, ls, o, out)
            if bad:
                return bad
            again = refactor(out)
            if again != out:
                return ('not-idempotent', 'updated code is modified by a second update',
                        {'program': o, 'once': out, 'twice': again})
            return None
        bad = run(lines)
        changed = any(l['old'] != l['new'] for l in lines)
        rep.case(old if changed else None)
        rep.traces += 1
        rep.count('programs')
        rep.count('lines', len(lines))
        rep.count('lines updated', sum(l['old'] != l['new'] for l in lines))
        if bad:
            small = minimal(lines, run)
            bad = run(small) or bad
            rep.mismatch(bad[0], bad[1] + ': %r' % (bad[2],), bad[2])
            if len(rep.mismatches) > 5:
                return


def command_line(ctx, progs):
    """The command: files modified in place, on request only, with a backup."""
    tmp = tempfile.mkdtemp(prefix='v1to2-')
    env = dict(os.environ, PYTHONPATH=common.REPO, PYTHONWARNINGS='ignore',
               PYTHONDONTWRITEBYTECODE='1')

    def run(*args):
        return subprocess.run([sys.executable, '-m', 'uncertainties.1to2'] + list(args),
                              cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              timeout=300)
    try:
        for sub in ('src/sub', 'dry'):
            os.makedirs(os.path.join(tmp, sub))
        olds = {}
        for n, lines in enumerate(progs):
            name = 'src/%sp%d.py' % ('sub/' if n % 2 else '', n)
            olds[name] = lines
        extra = {'src/notes.txt': 'x.std_dev()\n', 'src/same.py': 'x = ufloat(1, 2)\n'}
        for name, lines in olds.items():
            for top in ('', 'dry/'):
                path = os.path.join(tmp, top + name.replace('src/sub/', 'src/') if top else name)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, 'w', encoding='utf-8') as f:
                    f.write(program(lines, 'old'))
        for name, text in extra.items():
            with open(os.path.join(tmp, name), 'w') as f:
                f.write(text)

        def read(name):
            with open(os.path.join(tmp, name), encoding='utf-8') as f:
                return f.read()

        def listing(top):
            return sorted(os.path.join(d, f) for d, _, fs in os.walk(os.path.join(tmp, top))
                          for f in fs)
        before = listing('dry')
        p = run('dry')
        if p.returncode != 0:
            ctx.violation('command', 'the command without -w fails: %s' % p.stderr[-500:], {})
        for path in before:
            name = 'src/' + os.path.basename(path)
            lines = next(l for k, l in olds.items() if os.path.basename(k) == os.path.basename(path))
            if read(path) != program(lines, 'old') or listing('dry') != before:
                ctx.violation('command', 'files are modified without -w', {'file': name})
                break
        p = run('-w', 'src')
        if p.returncode != 0:
            ctx.violation('command', 'the command fails: %s' % p.stderr[-500:], {})
        for name, lines in olds.items():
            out = read(name)
            old = program(lines, 'old')
            ctx.case()
            ctx.count('files updated by the command')
            bad = judge(None, lines, old, out)
            if bad:
                ctx.violation('command-' + bad[0], bad[1] + ': %r' % (bad[2],), bad[2])
            bak = os.path.join(tmp, name + '.bak')
            if out != old and (not os.path.exists(bak) or read(name + '.bak') != old):
                ctx.violation('command', 'no backup of the original file', {'file': old})
            if out == old and os.path.exists(bak):
                ctx.violation('command', 'unmodified file written', {'file': old})
        for name, text in extra.items():
            if read(name) != text:
                ctx.violation('command', '%s modified' % name, {'text': text})
    finally:
        shutil.rmtree(tmp, True)


def check_c21(ctx):
    size = dict(Sim=False, MaxLines=1, MaxIndent=0)
    n = 4000 if not ctx.thorough else 60000
    jobs = [dict(module='Fixers', constants=dict(size, MaxDepth=d), workers=1) for d in (1, 2)]
    jobs += [dict(module='Fixers', simulate=n // 6, depth=80, seed=ctx.seed * 1000 + i,
                  constants=dict(Sim=True, MaxLines=4 + 3 * (i % 3), MaxDepth=2 + i % 2,
                                 MaxIndent=2)) for i in range(6)]
    res = ctx.tlc_many(jobs)
    exhaustive = [p for r in res[:2] for p in r.items]
    random = [p for r in res[2:] for p in r.items]
    ctx.count('all the small terms', len(exhaustive))
    # Several one-line programs make a program
    grouped = []
    for i in range(0, len(exhaustive), 10):
        grouped.append([l for p in exhaustive[i:i + 10] for l in p])
    ctx.exhaustive = {'bounds': 'terms of depth 1 (all children), depth 2 (one child), as an '
                      'expression or as a statement that sets a standard deviation',
                      'programs': len(exhaustive)}
    common.pmap(ctx, work, grouped + random, chunks=16)
    ctx.sample({'program': program(random[0], 'old'), 'updated': program(random[0], 'new')})
    command_line(ctx, random[:40])
