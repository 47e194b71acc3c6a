"""Stateless bounded model checking of the real parsevasp code.

A check is a set of *programs*.  A program is a nondeterministic Python function that takes a `Ctx`, resolves every
nondeterministic decision through `ctx.choose(...)`, and returns a *case* (plain data: a document, an operation history, a crash
point ...).  The explorer enumerates **every** sequence of decisions depth first (like a stateless model checker enumerates
schedules); each completed path is handed to the `judge`, which runs the real code on the case and compares what is observed with a
reference model written independently of the code under test.

Bounding: a decision is either *free* (all options are always explored) or *charged* (the first option is the default; picking any other
costs one unit of the deviation bound).  With deviation bound d, every case with at most d simultaneous charged
deviations is explored - the analogue of a preemption bound in schedule exploration.

States are the distinct nodes of the decision tree, transitions its edges, traces the distinct completed cases that were executed
against the implementation.
"""
import hashlib
import json
import multiprocessing
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Ctx:
    __slots__ = ('path', 'pos', 'limit', 'used', 'sizes', 'new_from', 'labels')

    def __init__(self, path, limit):
        self.path = path
        self.pos = 0
        self.limit = limit
        self.used = 0
        self.sizes = []
        self.labels = []

    def choose(self, label, options, free=False):
        """Resolve a decision.  `options` is a sequence; option 0 is the default."""
        n = len(options)
        if not free and self.limit is not None and self.used >= self.limit:
            n = 1
        if self.pos < len(self.path):
            pick = self.path[self.pos]
        else:
            pick = 0
            self.path.append(0)
        self.sizes.append(n)
        self.labels.append(label)
        self.pos += 1
        if pick and not free:
            self.used += 1
        return options[pick]

    def free(self, label, options):
        return self.choose(label, options, free=True)

    def flag(self, label):
        return self.choose(label, (False, True))


class Skip(Exception):
    """Raised by a program when the decisions made so far do not form a case (counted, not executed)."""


def enumerate_program(program, limit):
    """Yield (case, new_nodes) for every decision sequence."""
    path = []
    fresh = 0
    while True:
        ctx = Ctx(path, limit)
        try:
            case = program(ctx)
        except Skip:
            case = None
        if ctx.pos != len(path):
            raise RuntimeError('program is not a function of its decisions: %r' % (ctx.labels,))
        yield case, ctx.pos - fresh
        # backtrack
        sizes = ctx.sizes
        while path and path[-1] + 1 >= sizes[len(path) - 1]:
            path.pop()
        if not path:
            return
        path[-1] += 1
        fresh = len(path) - 1


class Hang(Exception):
    pass


def _alarm(_sig, _frm):
    raise Hang('no answer within the per-case time limit')


class Violation(Exception):
    """Raised by a judge; `sig` names the clause and the specific failing input class."""

    def __init__(self, clause, message):
        super().__init__(message)
        self.clause = clause
        self.message = message


class Program:
    """One exploration: generator, judge and bounds per tier."""

    def __init__(self, name, gen, judge, quick=None, thorough=None, per_case_s=20, enabled=('quick', 'thorough')):
        self.name = name
        self.gen = gen
        self.judge = judge
        self.limit = {'quick': quick, 'thorough': thorough if thorough is not None else quick}
        self.per_case_s = per_case_s
        self.enabled = enabled


def case_key(case):
    return hashlib.blake2b(repr(case).encode('utf8', 'surrogatepass'), digest_size=12).digest()


SCRATCH = None


def scratch():
    """Per-process scratch directory (removed by the parent)."""
    return SCRATCH


def _worker(args):
    global SCRATCH
    (check_mod, idx, tier, shard, shards, root, deadline) = args
    SCRATCH = os.path.join(root, 'p%d_%d' % (idx, shard))
    os.makedirs(SCRATCH, exist_ok=True)
    os.chdir(SCRATCH)
    prog = check_mod.PROGRAMS[idx]
    signal.signal(signal.SIGALRM, _alarm)
    nodes = leaves = executed = skipped = 0
    seen = set()
    violations = []
    nviol = 0
    samples = []
    stats = {}
    complete = True
    outcomes = {}
    for case, new in enumerate_program(prog.gen, prog.limit[tier]):
        nodes += new
        leaves += 1
        if case is None:
            skipped += 1
            continue
        key = case_key(case)
        if key[0] % shards != shard:
            continue
        if key in seen:
            continue
        seen.add(key)
        if time.time() > deadline:
            complete = False
            break
        executed += 1
        if len(samples) < 2 and (executed in (1, 997)):
            samples.append(case)
        signal.setitimer(signal.ITIMER_REAL, prog.per_case_s)
        try:
            note = prog.judge(case)
            if note is not None:
                if isinstance(note, dict):
                    for k, v in note.items():
                        if isinstance(v, (set, frozenset)):
                            stats.setdefault(k, set()).update(v)
                        else:
                            stats[k] = stats.get(k, 0) + v
                else:
                    outcomes[note] = outcomes.get(note, 0) + 1
        except Violation as exc:
            nviol += 1
            if len(violations) < 40:
                violations.append((exc.clause, exc.message, case))
        except Hang as exc:
            nviol += 1
            violations.append(('hang', str(exc), case))
            if len([v for v in violations if v[0] == 'hang']) >= 3:
                complete = False
                break
        except BaseException as exc:  # pylint: disable=broad-except
            # The judge itself failed on what the code returned (e.g. an attribute is gone): that is a difference from the model.
            nviol += 1
            if len(violations) < 40:
                violations.append(('judge-' + type(exc).__name__,
                                   'observation failed: ' + ''.join(traceback.format_exception_only(type(exc), exc)).strip() + ' @ ' +
                                   ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(exc.__traceback__)[-4:])), case))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return dict(idx=idx, shard=shard, nodes=nodes, leaves=leaves, executed=executed, skipped=skipped, violations=violations, nviol=nviol,
                samples=samples, stats=stats, complete=complete, outcomes=outcomes)


def load_known(pid):
    """Entries of /verif/KNOWN_FINDINGS.jsonl: {"property","kind":"known"|"fixed","clause","match","what"}"""
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    known = []
    if os.path.isfile(path):
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if not line or line.startswith('#') or line.startswith('fixed:'):
                    continue
                ent = json.loads(line)
                if ent.get('property') == pid and ent.get('kind') == 'known':
                    known.append(ent)
    return known


def jsonable(obj):
    import numpy as np
    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in obj]
    if isinstance(obj, np.ndarray):
        return obj.tolist()
    if isinstance(obj, (np.integer,)):
        return int(obj)
    if isinstance(obj, (np.floating,)):
        return float(obj)
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        return obj
    if isinstance(obj, bytes):
        return obj.decode('latin1')
    return repr(obj)


def run_check(check_mod, tier, seed, only=None):
    pid = check_mod.PROPERTY
    start = time.time()
    budget = float(os.environ.get('VERIF_BUDGET_S', '780' if tier == 'quick' else '20000'))
    deadline = start + budget
    root = tempfile.mkdtemp(prefix='parsevasp_mc_%s_' % pid)
    shards = int(os.environ.get('VERIF_JOBS', str(min(8, os.cpu_count() or 1))))
    progs = [i for i, p in enumerate(check_mod.PROGRAMS) if tier in p.enabled and (only is None or p.name == only)]
    tasks = [(check_mod, i, tier, s, shards, root, deadline) for i in progs for s in range(shards)]
    results = []
    try:
        mp = multiprocessing.get_context('fork')
        # largest programs first is not known; keep order.  Worker processes are recycled after each task for isolation.
        with mp.Pool(shards, maxtasksperchild=1, initializer=_init) as pool:
            handles = [pool.apply_async(_call, (pid_task,)) for pid_task in [(check_mod.__name__, t[1:]) for t in tasks]]
            for hnd in handles:
                results.append(hnd.get(timeout=budget + 120))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    per = {}
    violations = []
    nviol = 0
    for res in results:
        name = check_mod.PROGRAMS[res['idx']].name
        ent = per.setdefault(name, dict(nodes=0, leaves=0, executed=0, skipped=0, samples=[], stats={}, complete=True, outcomes={},
                                        limit=check_mod.PROGRAMS[res['idx']].limit[tier]))
        if res['shard'] == 0 or True:
            ent['nodes'] = max(ent['nodes'], res['nodes'])
            ent['leaves'] = max(ent['leaves'], res['leaves'])
            ent['skipped'] = max(ent['skipped'], res['skipped'])
        ent['executed'] += res['executed']
        ent['samples'] += res['samples']
        ent['complete'] = ent['complete'] and res['complete']
        for k, v in res['stats'].items():
            if isinstance(v, set):
                ent['stats'].setdefault(k, set()).update(v)
            else:
                ent['stats'][k] = ent['stats'].get(k, 0) + v
        for k, v in res['outcomes'].items():
            ent['outcomes'][k] = ent['outcomes'].get(k, 0) + v
        nviol += res['nviol']
        violations += [(name,) + v for v in res['violations']]

    # Vacuity guard: an exploration that executed nothing decides nothing.
    if not per or any(e['executed'] == 0 for e in per.values()):
        print('ERROR property=%s vacuous exploration' % pid)
        return 2

    known = load_known(pid)
    printed_known = set()
    fresh = []
    for v in violations:
        hit = None
        for ent in known:
            if ent.get('clause') == v[1] and ent.get('program') in (None, v[0]) and ent['match'] in (repr(v[3]) + '\n' + v[2]):
                hit = ent
                break
        if hit is not None:
            printed_known.add(hit['what'])
        else:
            fresh.append(v)
    for ent in known:
        if ent['what'] in printed_known:
            print('KNOWN-FINDING: property=%s %s' % (pid, ent['what']))

    rc = 0
    out = os.environ.get('VERIF_OUT', VERIF)
    repdir = os.path.join(out, 'replays', pid)
    if fresh:
        rc = 1
        shutil.rmtree(repdir, ignore_errors=True)
        os.makedirs(repdir, exist_ok=True)
        clauses = {}
        for v in fresh:
            clauses.setdefault((v[0], v[1]), []).append(v)
        num = 0
        for (prog, clause), vs in sorted(clauses.items()):
            vs.sort(key=lambda v: len(repr(v[3])))
            for v in vs[:2]:
                num += 1
                base = os.path.join(repdir, '%03d' % num)
                with open(base + '.pickle', 'wb') as fh:
                    pickle.dump({'property': pid, 'program': prog, 'case': v[3]}, fh)
                with open(base + '.json', 'w') as fh:
                    json.dump({'property': pid, 'program': prog, 'clause': clause, 'message': v[2], 'case': jsonable(v[3]), 'pickle': base + '.pickle',
                               'replay_cmd': '/opt/venv/bin/python %s/mc/run.py --replay %s.pickle' % (VERIF, base)}, fh, indent=1)
                print('VIOLATION property=%s replay=%s.json' % (pid, base))
                print('   program=%s clause=%s (%d cases): %s' % (prog, clause, len(vs), v[2][:600]))
        print('%d violating cases in total' % nviol)

    states = sum(e['nodes'] + 1 for e in per.values())
    transitions = sum(e['nodes'] for e in per.values())
    traces = sum(e['executed'] for e in per.values())
    samples = []
    for name, e in per.items():
        for s in e['samples'][:2]:
            case = jsonable(s)
            if len(json.dumps(case, default=repr)) > 6000:
                case = repr(case)[:3000] + '...'
            samples.append({'program': name, 'case': case})
    cov = {
        'states': states, 'transitions': transitions, 'traces_validated_against_impl': traces,
        'exhaustive': all(e['complete'] for e in per.values()),
        'samples': samples[:12],
        'programs': {n: {'decision_tree_nodes': e['nodes'], 'complete_paths': e['leaves'], 'pruned_paths': e['skipped'],
                         'distinct_cases_executed': e['executed'], 'deviation_bound': e['limit'], 'complete': e['complete'],
                         'outcomes': e['outcomes'],
                         'stats': {k: (len(v) if isinstance(v, set) else v) for k, v in e['stats'].items()}} for n, e in per.items()},
        'bounds': getattr(check_mod, 'BOUNDS', ''),
        'oracle': getattr(check_mod, 'ORACLE', ''),
    }
    wall = time.time() - start
    evidence = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'wall_s': round(wall, 2),
                'violations': len(fresh)}
    if getattr(check_mod, 'ASSUMPTIONS', None):
        evidence['assumptions'] = check_mod.ASSUMPTIONS
    os.makedirs(os.path.join(out, 'evidence'), exist_ok=True)
    with open(os.path.join(out, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1, default=repr)
    print('%s tier=%s states=%d transitions=%d traces=%d exhaustive=%s violations=%d wall=%.1fs' %
          (pid, tier, states, transitions, traces, cov['exhaustive'], len(fresh), wall))
    for n, e in per.items():
        print('   %-28s nodes=%d paths=%d executed=%d bound=%s complete=%s %s' % (n, e['nodes'], e['leaves'], e['executed'], e['limit'], e['complete'],
                                                                               {k: (len(v) if isinstance(v, set) else v) for k, v in list(e['stats'].items()) + list(e['outcomes'].items())}))
    return rc


def _init():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)


def _call(arg):
    import importlib
    modname, rest = arg
    mod = importlib.import_module(modname)
    return _worker((mod,) + tuple(rest))


def replay(check_mod, program, case):
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='parsevasp_mc_replay_')
    os.chdir(SCRATCH)
    try:
        for prog in check_mod.PROGRAMS:
            if prog.name == program:
                try:
                    prog.judge(case)
                except Violation as exc:
                    print('VIOLATED clause=%s: %s' % (exc.clause, exc.message))
                    return 1
                print('held')
                return 0
    finally:
        os.chdir('/')
        shutil.rmtree(SCRATCH, ignore_errors=True)
    print('no such program')
    return 2
