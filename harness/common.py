"""Shared machinery: running TLC, collecting what it prints, verdicts, evidence.

A check is a function check(ctx) that uses ctx.tlc(...) to obtain behaviours or
expected results from the TLA+ specifications, exercises the code of /repo, and
calls ctx.violation(...) when they disagree.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


class TlcResult(object):
    def __init__(self):
        self.items = []       # printed "@@" JSON values
        self.states = 0
        self.distinct = 0
        self.output = ''
        self.violated = None  # name of a violated invariant/property
        self.wall = 0.


def tla_value(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"')
    if isinstance(v, (set, frozenset)):
        return '{%s}' % ', '.join(sorted(tla_value(x) for x in v))
    raise ValueError(v)


def write_cfg(path, spec='Spec', constants=None, invariants=(), properties=(),
              constraint=None, extra=()):
    lines = ['SPECIFICATION ' + spec]
    if constants:
        lines.append('CONSTANTS')
        for k, v in sorted(constants.items()):
            lines.append(' %s = %s' % (k, tla_value(v)))
    if invariants:
        lines.append('INVARIANTS ' + ' '.join(invariants))
    if properties:
        lines.append('PROPERTIES ' + ' '.join(properties))
    if constraint:
        lines.append('CONSTRAINT ' + constraint)
    lines.extend(extra)
    lines.append('CHECK_DEADLOCK FALSE')
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')


def run_tlc(module, constants=None, spec='Spec', invariants=(), properties=(),
            constraint=None, simulate=None, depth=None, seed=None, workers=1,
            timeout=600, env=None, extra=(), heap='2g', expect_violation=False):
    """Runs TLC on spec/<module>.tla; returns a TlcResult.

    A violated invariant is a defect of the specification (a machinery error),
    unless expect_violation.
    """
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vtlc-')
    try:
        cfg = os.path.join(tmp, 'model.cfg')
        write_cfg(cfg, spec, constants, invariants, properties, constraint, extra)
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC' if workers == 1 else
               '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + tmp, '-Dtlc2.TLC.ide=none',
               '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8',
               '-cp', JAR,
               'tlc2.TLC', '-noGenerateSpecTE', '-metadir', os.path.join(tmp, 'md'),
               '-config', cfg, '-workers', str(workers), '-checkpoint', '0']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth or 100)]
        if seed is not None:
            cmd += ['-seed', str(seed)]
        cmd.append(os.path.join(SPEC, module + '.tla'))
        full_env = dict(os.environ)
        full_env.pop('JAVA_TOOL_OPTIONS', None)
        if env:
            full_env.update(env)
        p = subprocess.run(cmd, cwd=tmp, env=full_env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        res = TlcResult()
        other = []
        for line in p.stdout.decode('utf-8', 'replace').split('\n'):
            if line.startswith('"@@'):
                res.items.append(json.loads(json.loads(line)[2:]))
            else:
                other.append(line)
        res.output = '\n'.join(other)
        m = re.findall(r'(\d+) states generated(?:.*?), (\d+) distinct', res.output)
        if m:
            res.states, res.distinct = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.search(r'The number of states generated: (\d+)', res.output)
            if m:
                res.states = res.distinct = int(m.group(1))
        viol = re.search(r'(?:Invariant|property|Property) (\w+) (?:is|was) violated'
                         r'|(?:properties) (\S+) (?:is|was) violated', res.output)
        if 'is violated' in res.output or 'was violated' in res.output \
                or 'properties were violated' in res.output:
            res.violated = viol.group(1) if viol else 'temporal'
        if res.violated:
            if not expect_violation:
                raise MachineryError('%s: %s violated in the specification\n%s'
                                     % (module, res.violated, res.output[-3000:]))
        elif p.returncode != 0 or 'Error:' in res.output:
            raise MachineryError('TLC failed on %s (exit %s):\n%s' % (
                module, p.returncode, '\n'.join(
                    l for l in other if not re.match(
                        'Parsing file|Semantic proc|Warning|.Use the|TLC2|Running', l))[:2500]))
        res.wall = time.time() - t0
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_tlc_many(jobs, parallel=8):
    """jobs: list of kwargs (with 'module') for run_tlc; results in order."""
    with concurrent.futures.ThreadPoolExecutor(parallel) as ex:
        futs = [ex.submit(run_tlc, **job) for job in jobs]
        return [f.result() for f in futs]


# ---------------------------------------------------------------------------

class Ctx(object):
    """One run of one check."""

    MAX_REPORTED = 5

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.seed = seed
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.notes = {}
        self.counts = {}
        self.violations = []
        self.known = []
        self.exhaustive = None
        self.known_list = load_known()

    # -- TLC ---------------------------------------------------------------
    def account(self, res):
        self.states += res.distinct
        self.transitions += res.states
        return res

    def tlc(self, module, **kw):
        return self.account(run_tlc(module, **kw))

    def tlc_many(self, jobs, parallel=8):
        return [self.account(r) for r in run_tlc_many(jobs, parallel)]

    def generate(self, module, total, depth, constants, procs=6, **kw):
        """Behaviours of a specification from several seeded simulations."""
        per = max(1, total // procs)
        jobs = [dict(module=module, simulate=per, depth=depth, constants=constants,
                     seed=self.seed * 1000 + i, **kw) for i in range(procs)]
        out = []
        for r in self.tlc_many(jobs):
            out.extend(r.items)
        return out

    # -- counting ----------------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def case(self, key=None, n=1):
        self.evaluations += n
        if key is not None:
            self.distinct.add(key)

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    # -- verdicts ----------------------------------------------------------
    def violation(self, clause, detail, replay):
        """clause: which clause failed; detail: text; replay: JSON-able."""
        for k in self.known_list:
            if k['property'] == self.prop and known_matches(k, clause, replay):
                if k['id'] not in [x['id'] for x in self.known]:
                    self.known.append(k)
                return
        self.violations.append((clause, detail, replay))

    @property
    def enough(self):
        return len(self.violations) >= self.MAX_REPORTED

    def finish(self, level, assumptions=()):
        cov = {
            'states': self.states, 'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'evaluations': self.evaluations,
            'distinct_nontrivial': len(self.distinct),
            'samples': self.samples,
            'counts': self.counts,
        }
        cov.update(self.notes)
        if self.exhaustive is not None:
            cov['exhaustive'] = self.exhaustive
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': level, 'coverage': cov, 'assumptions': list(assumptions),
              'wall_s': round(time.time() - self.t0, 3),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.prop + '-'):
                os.remove(os.path.join(rdir, f))
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if not self.violations:
            print('OK property=%s %s' % (self.prop, json.dumps(
                {'states': self.states, 'traces': self.traces,
                 'evaluations': self.evaluations, 'wall_s': ev['wall_s']})))
            return 0
        for n, (clause, detail, replay) in enumerate(self.violations[:self.MAX_REPORTED]):
            path = os.path.join(rdir, '%s-%d.json' % (self.prop, n))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'clause': clause, 'detail': detail,
                           'seed': self.seed, 'tier': self.tier, 'replay': replay},
                          f, indent=1, default=repr)
            print('%s: %s' % (clause, detail))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1


KNOWN_FILE = os.path.join(VERIF, 'known_findings.json')


def load_known():
    try:
        with open(KNOWN_FILE) as f:
            return json.load(f).get('findings', [])
    except IOError:
        return []


def known_matches(k, clause, replay):
    return k.get('clause') == clause and all(
        isinstance(replay, dict) and replay.get(f) == v for f, v in k['match'].items())


def setup_imports():
    """The code under test always comes from the working tree, compiled anew."""
    sys.dont_write_bytecode = True
    pyc = tempfile.mkdtemp(prefix='vpyc-')
    sys.pycache_prefix = pyc
    sys.path.insert(0, REPO)
    import atexit
    atexit.register(shutil.rmtree, pyc, True)


def fl(d):
    """Dyadic <<m, e>> to float (None for Bad)."""
    m, e = d
    if m == 0:
        return {0: 0., 1: float('nan')}[e]
    return m * 2.**e


# Tags can be any object: those of the specifications
TAGS = {'': None, 'a': 'a', 'b': 'b', 'a tag': 'a tag', 'e': '', 'z': 0, 't': ('t', 1)}


def same_tag(a, b):
    return type(a) is type(b) and a == b


def same(a, b, rel=1e-12, abs_=0.):
    """Floats equal up to rounding (NaN equals NaN)."""
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if a in (float('inf'), -float('inf')) or b in (float('inf'), -float('inf')):
        return False
    return abs(a - b) <= rel * max(abs(a), abs(b)) + abs_


# ---------------------------------------------------------------------------
# Running the code under test in child processes: a hang, a crash of the
# interpreter or memory exhaustion is an observation, not a failure of the check.

class Report(object):
    """What a worker sends back."""

    def __init__(self):
        self.mismatches = []
        self.counts = {}
        self.evaluations = 0
        self.traces = 0
        self.distinct = set()

    def mismatch(self, clause, detail, replay):
        if len(self.mismatches) < 20:
            self.mismatches.append((clause, detail, replay))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def case(self, key=None, n=1):
        self.evaluations += n
        if key is not None:
            self.distinct.add(key)


def in_code_under_test(exc):
    """Whether an exception went through the code under test (or one of its objects
    does not have a documented attribute)."""
    if isinstance(exc, AttributeError):
        obj = getattr(exc, 'obj', None)
        name = obj.__name__ if isinstance(obj, type(os)) else getattr(
            obj if isinstance(obj, type) else type(obj), '__module__', None)
        if str(name).split('.')[0] == 'uncertainties':
            return True
    top = os.path.join(os.path.realpath(REPO), 'uncertainties') + os.sep
    return any(os.path.realpath(f.filename).startswith(top)
               for f in traceback.extract_tb(exc.__traceback__))


def _child(func, chunk, path):
    import pickle
    try:
        rep = Report()
        func(rep, chunk)
        out = ('ok', rep)
    except MemoryError:
        out = ('crash', 'MemoryError')
    except BaseException as e:
        # What is observed cannot even be compared: it does not have the right type, etc.
        odd = isinstance(e, (TypeError, ValueError, ArithmeticError, LookupError))
        out = ('failure' if odd or in_code_under_test(e) else 'error', traceback.format_exc())
    with open(path + '.tmp', 'wb') as f:
        pickle.dump(out, f)
    os.rename(path + '.tmp', path)


def pmap(ctx, func, items, chunks=None, timeout=120, parallel=8):
    """func(report, items_chunk) over chunks, in forked processes."""
    import multiprocessing
    import pickle
    items = list(items)
    if not items:
        return
    chunks = chunks or min(len(items), parallel * 2)
    parts = [items[i::chunks] for i in range(chunks)]
    parts = [p for p in parts if p]
    mp = multiprocessing.get_context('fork')
    tmp = tempfile.mkdtemp(prefix='vpmap-')
    running = {}
    try:
        todo = list(enumerate(parts))
        while todo or running:
            while todo and len(running) < parallel:
                n, part = todo.pop(0)
                path = os.path.join(tmp, str(n))
                sys.stdout.flush()
                pr = mp.Process(target=_child, args=(func, part, path))
                pr.start()
                running[n] = (pr, path, part, time.time() + timeout)
            time.sleep(0.005)
            for n, (pr, path, part, deadline) in list(running.items()):
                if os.path.exists(path):
                    with open(path, 'rb') as f:
                        kind, rep = pickle.load(f)
                    pr.join(5)
                    if pr.is_alive():
                        pr.kill()
                        pr.join()
                    del running[n]
                    if kind == 'error':
                        raise MachineryError('worker failed:\n' + rep)
                    if kind == 'failure':
                        # The code under test failed where no exception is expected
                        ctx.violation('exception', rep[-1500:], {'traceback': rep})
                        continue
                    if kind == 'crash':
                        ctx.violation('no-answer', rep, {'items': part[:3]})
                        continue
                    merge(ctx, rep)
                elif not pr.is_alive():
                    if os.path.exists(path):
                        continue
                    del running[n]
                    ctx.violation('no-answer', 'the interpreter died (exit code %s)'
                                  % pr.exitcode, {'items': part[:3]})
                elif time.time() > deadline:
                    pr.kill()
                    pr.join()
                    del running[n]
                    ctx.violation('no-answer', 'no answer within %d s' % timeout,
                                  {'items': part[:3]})
            if ctx.enough:
                for pr, _, _, _ in running.values():
                    pr.kill()
                    pr.join()
                return
    finally:
        for pr, _, _, _ in running.values():
            if pr.is_alive():
                pr.kill()
                pr.join()
        shutil.rmtree(tmp, ignore_errors=True)


def merge(ctx, rep):
    for k, v in rep.counts.items():
        ctx.count(k, v)
    ctx.evaluations += rep.evaluations
    ctx.traces += rep.traces
    ctx.distinct |= rep.distinct
    for m in rep.mismatches:
        ctx.violation(*m)
