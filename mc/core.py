"""Small explicit-state / stateless model checking library used by all checks.

A check module (checks/cNN.py) defines

    PROPERTY = 'C01'
    LEVEL    = 'exploration' | 'model_checking' | 'fault_enumeration'
    RULE     = how cases are made and what makes one non-trivial
    ASSUMPTIONS = [...]
    def spaces(tier): list of Space objects.  The explorer visits EVERY element
                      of every space; nothing is sampled.

A Space is (name, iterable of JSON-able cases, run) where run(case) executes the
real code in /repo on that one case and returns an Out.  Histories (sequences of
operations, environment answers) are cases as well: the case is the list of
choices; every execution is replayed from scratch from the initial state, so a
counterexample is always a complete, replayable list.

Replay:   python /verif/replay.py FILE      (FILE is the replay= path printed)
"""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


class Out(object):
    """What one execution produced.

    viol: list of (key, message); key identifies the failing input, call site
          or history (used for known findings), message is for people.
    outcome: a hashable summary of the observed behaviour; used to count how
          many distinct behaviours were seen.
    steps: number of transitions (operations / environment answers) executed.
    states: canonical states seen (only for history spaces).
    trivial: the case did not exercise anything (counted apart).
    """
    __slots__ = ('viol', 'outcome', 'steps', 'states', 'trivial', 'checked')

    def __init__(self, outcome=None, steps=1, states=(), trivial=False):
        self.viol = []
        self.outcome = outcome
        self.steps = steps
        self.states = list(states)
        self.trivial = trivial
        self.checked = 0

    def bad(self, key, msg):
        self.viol.append((str(key), str(msg)))

    def expect(self, cond, key, msg):
        """one oracle evaluation"""
        self.checked += 1
        if not cond:
            self.bad(key, msg() if callable(msg) else msg)
        return bool(cond)


class Space(object):
    def __init__(self, name, cases, run, exhaustive=True, note=''):
        self.name = name
        self.cases = cases
        self.run = run
        self.exhaustive = exhaustive
        self.note = note


def h(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


class CaseTimeout(Exception):
    pass


CASE_SECONDS = 150


def _alarm(signum, frame):
    raise CaseTimeout('no answer after %d s' % CASE_SECONDS)


def run_one(space, case):
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
        try:
            out = space.run(case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except KeyboardInterrupt:
        raise
    except BaseException:
        tb = traceback.format_exc()
        last = tb.strip().splitlines()[-1]
        out = Out(outcome=('exception', last))
        out.bad('exception:' + last.split(':')[0],
                'unexpected exception: %s\n%s' % (last, tb))
    return out


_SPACES = None
_DEADLINE = None


def _work(args):
    isp, chunk = args
    space = _SPACES[isp]
    res = dict(n=0, steps=0, checked=0, trivial=0, outcomes=collections.Counter(),
               states=set(), viol=[], skipped=0)
    for icase, case in chunk:
        if time.time() > _DEADLINE:
            res['skipped'] += 1
            continue
        out = run_one(space, case)
        res['n'] += 1
        res['steps'] += out.steps
        res['checked'] += out.checked
        res['trivial'] += bool(out.trivial)
        res['outcomes'][h(out.outcome)] += 1
        for s in out.states:
            res['states'].add(h(s))
        for key, msg in out.viol:
            if len(res['viol']) < 40:
                res['viol'].append((icase, case, key, msg))
    return isp, res


def _chunks(seq, n):
    buf = []
    for x in seq:
        buf.append(x)
        if len(buf) >= n:
            yield buf
            buf = []
    if buf:
        yield buf


def load_known(prop):
    """known findings: property, key (exact), space(optional), text"""
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as fp:
        data = json.load(fp)
    return [f for f in data['findings'] if f['property'] == prop]


def explore(mod, tier=None, seed=None, nproc=None):
    global _SPACES, _DEADLINE
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1) if seed is None else seed
    nproc = nproc or int(os.environ.get('VERIF_NPROC', '0')) or min(8, os.cpu_count() or 1)
    budget = float(os.environ.get('VERIF_BUDGET', 780 if tier == 'quick' else 20000))
    _DEADLINE = t0 + budget

    prop = mod.PROPERTY
    known = load_known(prop)
    known_keys = {}
    for f in known:
        known_keys[f['key']] = f

    _SPACES = mod.spaces(tier)
    # warm up (numba compilation etc.) before forking
    if hasattr(mod, 'warmup'):
        mod.warmup()

    per_space = []
    violations = []
    known_hit = {}
    outcomes = set()
    states = set()
    samples = []
    tot = dict(n=0, steps=0, checked=0, trivial=0, skipped=0)

    def jobs():
        for isp, sp in enumerate(_SPACES):
            cases = list(sp.cases)
            ncase[isp] = len(cases)
            if cases:
                for k in sorted({0, len(cases)//2, len(cases)-1}):
                    if len(samples) < 12:
                        samples.append({'space': sp.name, 'case': cases[k]})
            size = max(1, min(200, len(cases)//(nproc*6) + 1))
            for ch in _chunks(enumerate(cases), size):
                yield isp, ch

    ncase = {}
    agg = {i: dict(n=0, steps=0, checked=0, trivial=0, skipped=0, outcomes=set(), states=set(),
                   viol=0) for i in range(len(_SPACES))}

    def absorb(isp, r):
        a = agg[isp]
        for k in ('n', 'steps', 'checked', 'trivial', 'skipped'):
            a[k] += r[k]
            tot[k] += r[k]
        a['outcomes'].update(r['outcomes'])
        a['states'].update(r['states'])
        outcomes.update((isp, o) for o in r['outcomes'])
        states.update((isp, s) for s in r['states'])
        for icase, case, key, msg in r['viol']:
            full = '%s|%s' % (_SPACES[isp].name, key)
            f = known_keys.get(full) or known_keys.get(key)
            if f is not None:
                known_hit.setdefault(f['key'], f)
            else:
                a['viol'] += 1
                violations.append((isp, icase, case, key, msg))

    if nproc == 1:
        for job in jobs():
            absorb(*_work(job))
            if violations and os.environ.get('VERIF_FAILFAST'):    # for mutation testing
                break
    else:
        ctx = mp.get_context('fork')
        joblist = list(jobs())
        with ctx.Pool(nproc) as pool:
            for isp, r in pool.imap_unordered(_work, joblist):
                absorb(isp, r)

    for isp, sp in enumerate(_SPACES):
        a = agg[isp]
        per_space.append({
            'space': sp.name, 'cases': ncase.get(isp, 0), 'executed': a['n'],
            'transitions': a['steps'], 'oracle_evaluations': a['checked'],
            'distinct_outcomes': len(a['outcomes']), 'states': len(a['states']),
            'trivial': a['trivial'],
            'exhaustive': bool(sp.exhaustive and a['skipped'] == 0),
            'note': sp.note,
        })

    exhaustive = tot['skipped'] == 0 and all(s['exhaustive'] for s in per_space)

    # simplest counterexamples first
    violations.sort(key=lambda v: (v[0], v[1]))
    seen = set()
    lines = []
    rdir = os.path.join(VERIF, 'replays')
    for isp, icase, case, key, msg in violations:
        if (isp, key) in seen:
            continue
        seen.add((isp, key))
        if len(lines) >= 10:
            break
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (prop, len(lines)))
        # replaying must give the same observation, otherwise the harness lost
        # control of some nondeterminism and says so in the artefact
        again = run_one(_SPACES[isp], case)
        same = any(k == key for k, _ in again.viol)
        with open(path, 'w') as fp:
            json.dump({'property': prop, 'space': _SPACES[isp].name, 'case': case,
                       'key': key, 'message': msg, 'tier': tier,
                       'replayed_identically': same}, fp, indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        print('--- %s [%s] %s' % (prop, _SPACES[isp].name, key))
        print('    case: %s' % (json.dumps(case, default=str)[:600]))
        print('    ' + msg.replace('\n', '\n    ')[:3000])
        if not same:
            print('    NOTE: not reproduced by a second run in the parent')

    if mod.LEVEL == 'model_checking':
        coverage = {
            'states': len(states), 'transitions': tot['steps'],
            'traces_validated_against_impl': tot['n'],
            'samples': samples, 'rule': mod.RULE,
            'evaluations': tot['n'],
            'distinct_nontrivial': len(outcomes),
        }
    else:
        coverage = {
            'evaluations': tot['n'],
            'distinct_nontrivial': max(0, tot['n'] - tot['trivial']),
            'rule': mod.RULE, 'samples': samples,
        }
    coverage.update({
        'distinct_observed_behaviours': len(outcomes),
        'oracle_evaluations': tot['checked'],
        'spaces': per_space, 'exhaustive': exhaustive,
        'skipped_by_time_cap': tot['skipped'],
    })
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
        'coverage': coverage, 'assumptions': list(mod.ASSUMPTIONS),
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    tmp = os.path.join(edir, '.%s.tmp' % prop)
    with open(tmp, 'w') as fp:
        json.dump(ev, fp, indent=1, default=str)
    os.replace(tmp, os.path.join(edir, '%s.json' % prop))

    print('%s tier=%s executions=%d transitions=%d oracle=%d distinct=%d states=%d '
          'exhaustive=%s wall=%.1fs' % (
              prop, tier, tot['n'], tot['steps'], tot['checked'], len(outcomes),
              len(states), exhaustive, time.time()-t0))
    for f in known_hit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, f['text']))
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    return 1 if lines else 0


# ---------------------------------------------------------------------------
# explorers
# ---------------------------------------------------------------------------

class Chooser(object):
    """Environment answers as choices: `pick(n)` returns 0 by default and is
    replayed from a prefix; the recorded points drive the search."""
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.points = []

    def pick(self, n, label=''):
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if not 0 <= c < n:
            raise RuntimeError('replay diverged: choice %d of %d at point %d %s'
                               % (c, n, i, label))
        self.points.append((n, c, label))
        return c


def choice_cases(dry, bound, maxcases=None):
    """All choice sequences with at most `bound` deviations from the default
    answer.  dry(prefix) -> list of (n, chosen, label) runs the system once and
    reports the choice points it met.  Yields prefixes, fewest deviations first.
    """
    queue = collections.deque([()])
    while queue:
        prefix = queue.popleft()
        yield list(prefix)
        ndev = sum(1 for c in prefix if c)
        if ndev >= bound:
            continue
        points = dry(list(prefix))
        for i in range(len(prefix), len(points)):
            for alt in range(1, points[i][0]):
                queue.append(tuple(p[1] for p in points[:i]) + (alt,))


def all_choices(run_once, bound=None):
    """Run `run_once(chooser)` for every sequence of environment answers with at
    most `bound` deviations from the default (all of them if None); yields
    (list of answers, result) in order of discovery."""
    queue = collections.deque([()])
    while queue:
        prefix = queue.popleft()
        ch = Chooser(prefix)
        res = run_once(ch)
        taken = tuple(p[1] for p in ch.points)
        yield list(taken), res
        if bound is not None and sum(1 for c in prefix if c) >= bound:
            continue
        for i in range(len(prefix), len(ch.points)):
            for alt in range(1, ch.points[i][0]):
                queue.append(taken[:i] + (alt,))


def bfs_histories(ops, depth, enabled=None):
    """All operation sequences up to `depth`, shortest first (no merging)."""
    level = [()]
    yield []
    for _ in range(depth):
        nxt = []
        for hst in level:
            for op in ops:
                if enabled is None or enabled(hst, op):
                    n = hst + (op,)
                    nxt.append(n)
                    yield list(n)
        level = nxt


def main(mod):
    rc = 1
    try:
        rc = explore(mod)
    except SystemExit:
        raise
    except BaseException:
        # the machinery itself could not run the code under test
        tb = traceback.format_exc()
        print(tb)
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-setup.json' % mod.PROPERTY)
        with open(path, 'w') as fp:
            json.dump({'property': mod.PROPERTY, 'space': None, 'traceback': tb}, fp)
        print('VIOLATION property=%s replay=%s' % (mod.PROPERTY, path))
        rc = 1
    sys.stdout.flush()
    sys.exit(rc)
