"""Runner: generated-input search against explicit oracles.

A property module (pbt/props/cNN.py) exposes

    PROPERTY = 'C01'
    RULE = 'how cases are made and what makes one non-trivial'
    SUITES = [Suite(...), ...]

Each suite has a Hypothesis strategy that yields JSON-serialisable cases and a
`check(case, ctx)` that raises `Violation` when the property is broken.  Cases
are data, so a shrunk failure is written to a replay file and can be re-run
without Hypothesis:  ./check C01 --replay FILE
"""
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import env

CASE_CPU_LIMIT = 60      # seconds of CPU time one case may use (normal: ms)
SHRINK_SECONDS = 30
MEMORY_LIMIT = 6 << 30    # bytes of one worker (normal: 100 MB)


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Suite:
    def __init__(self, name, strategy, check, quick=2000, thorough=None,
                 seeds=None, doc=''):
        self.name = name
        self.strategy = strategy      # callable returning a SearchStrategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.seeds = seeds            # optional list of fixed cases
        self.doc = doc


class Ctx:
    """Per-case context: classification counters and scratch directory."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.labels = {}
        self._case_labels = None
        self.nontrivial_case = False
        self.n_dirs = 0

    def start(self):
        self._case_labels = set()
        self.nontrivial_case = False

    def label(self, name):
        self._case_labels.add(name)

    def nontrivial(self, cond=True):
        if cond:
            self.nontrivial_case = True

    def finish(self):
        for lab in self._case_labels:
            self.labels[lab] = self.labels.get(lab, 0) + 1

    @contextlib.contextmanager
    def tmpdir(self):
        """An empty scratch directory, made the cwd for the block.

        The name is constant so that paths inside output do not vary.
        """
        path = os.path.join(self.scratch, 'case')
        if os.path.isdir(path):
            shutil.rmtree(path)
        os.mkdir(path)
        old = os.getcwd()
        os.chdir(path)
        try:
            yield path
        finally:
            os.chdir(old)
            shutil.rmtree(path, ignore_errors=True)


def fail(msg, **details):
    text = msg
    for key, value in details.items():
        text += f'\n  {key}: {value if isinstance(value, str) and chr(10) not in value else repr(value)}'
    raise Violation(text)


def expect(cond, msg, **details):
    if not cond:
        fail(msg, **details)


def equal(got, want, msg, **details):
    if got != want:
        fail(msg, got=got, expected=want, **details)


def call(fn, *args, **kwargs):
    """Call the code under test; any exception it raises is a violation."""
    try:
        return fn(*args, **kwargs)
    except (CaseTimeout, KeyboardInterrupt, Violation):
        raise
    except BaseException as exc:  # SystemExit included
        tb = traceback.extract_tb(exc.__traceback__)
        last = tb[-1]
        fail(f'unexpected {type(exc).__name__} from the code under test: {exc}',
             where=f'{last.filename}:{last.lineno} in {last.name}')


@contextlib.contextmanager
def captured(stdin=None):
    """Redirect the standard streams around a CLI `run()` call."""
    out, err = io.StringIO(), io.StringIO()
    old = sys.stdin, sys.stdout, sys.stderr
    sys.stdin = io.StringIO('' if stdin is None else stdin)
    sys.stdout, sys.stderr = out, err
    try:
        yield out, err
    finally:
        sys.stdin, sys.stdout, sys.stderr = old


class CliResult:
    def __init__(self, value, code, out, err):
        self.value, self.code, self.out, self.err = value, code, out, err


def cli(run, args, stdin=None):
    """Run a CLI entry function in-process and normalise its result."""
    with captured(stdin) as (out, err):
        try:
            value = run(list(args))
        except SystemExit as exc:
            code = exc.code
            if code is None:
                code = 0
            return CliResult(None, code, out.getvalue(), err.getvalue())
        except (CaseTimeout, KeyboardInterrupt):
            raise
        except BaseException as exc:
            tb = traceback.extract_tb(exc.__traceback__)
            last = tb[-1]
            fail(f'CLI raised {type(exc).__name__}: {exc}', args=list(args),
                 where=f'{last.filename}:{last.lineno} in {last.name}')
    if isinstance(value, tuple):
        return CliResult(value[0], value[1], out.getvalue(), err.getvalue())
    return CliResult(None, value, out.getvalue(), err.getvalue())


# --------------------------------------------------------------------------
# running one case

def _on_timer(signum, frame):
    raise CaseTimeout()


def run_case(suite, case, ctx):
    """Run one case. Returns None or a violation message."""
    ctx.start()
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    cwd = os.getcwd()
    try:
        suite.check(case, ctx)
        msg = None
    except Violation as exc:
        msg = str(exc)
    except CaseTimeout:
        msg = (f'no result after {CASE_CPU_LIMIT} s of CPU time on one small'
               ' input (normally milliseconds)')
    except Exception as exc:
        # what the code under test wrote or returned cannot be read at all
        last = traceback.extract_tb(exc.__traceback__)[-1]
        msg = (f'unreadable result: {type(exc).__name__}: {exc}\n  where: '
               f'{os.path.basename(last.filename)}:{last.lineno} in '
               f'{last.name}')
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        os.chdir(cwd)
    ctx.finish()
    return msg


def _digest(case):
    blob = json.dumps(case, sort_keys=True, ensure_ascii=True, default=str)
    return hashlib.blake2b(blob.encode(), digest_size=8).digest()


class _Fail(Exception):
    pass


def _limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))


def _worker(conn, prop_module, suite_index, worker, n_workers, n_cases, seed,
            scratch, stop):
    _limit_memory()
    try:
        res = _worker_body(prop_module, suite_index, worker, n_workers,
                           n_cases, seed, scratch, stop)
    except BaseException:
        res = {'error': traceback.format_exc()}
    conn.send_bytes(pickle.dumps(res))
    conn.close()


def _worker_body(mod, suite_index, worker, n_workers, n_cases, seed, scratch,
                 stop):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS

    suite = mod.SUITES[suite_index]
    ctx = Ctx(scratch)
    os.chdir(scratch)
    stats = {'evaluations': 0, 'digests': set(), 'samples': [],
             'nontrivial': 0}
    failing = {}
    history = []

    def body(case):
        if stop.is_set() and not failing:
            return
        msg = run_case(suite, case, ctx)
        if not failing:
            history.append(case)
            stats['evaluations'] += 1
            if ctx.nontrivial_case:
                stats['nontrivial'] += 1
                d = _digest(case)
                if d not in stats['digests']:
                    stats['digests'].add(d)
                    n = stats['nontrivial']
                    if len(stats['samples']) < 2 and n >= 20 * (
                            len(stats['samples']) + 1):
                        stats['samples'].append(case)
        if msg is not None:
            failing['case'], failing['msg'] = case, msg
            raise _Fail(msg)

    seed_int = int.from_bytes(hashlib.blake2b(
        f'{seed}/{mod.PROPERTY}/{suite.name}/{worker}'.encode(),
        digest_size=8).digest(), 'big')
    error = None
    if n_cases > 0:
        test = settings(
            max_examples=n_cases, deadline=None, database=None,
            report_multiple_bugs=False, print_blob=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=[
                HealthCheck.too_slow, HealthCheck.data_too_large,
                HealthCheck.large_base_example],
        )(given(suite.strategy())(body))
        test = hypothesis.seed(seed_int)(test)
        try:
            with contextlib.redirect_stdout(io.StringIO()), \
                    contextlib.redirect_stderr(io.StringIO()):
                test()
        except BaseException:
            if not failing:
                error = traceback.format_exc()
    violation = None
    if failing:
        violation = {**failing, 'history': history}
        stop.set()
    return {
        'error': error, 'violation': violation,
        'evaluations': stats['evaluations'],
        'digests': stats['digests'], 'labels': ctx.labels,
        'samples': stats['samples'],
    }


def _run_all(suite, cases, scratch):
    """Run cases in a new process. Returns the message of the last one."""
    def child(conn):
        _limit_memory()
        ctx = Ctx(scratch)
        msg = None
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            for case in cases:
                msg = run_case(suite, case, ctx)
        conn.send_bytes(pickle.dumps(msg))
        conn.close()
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    mpctx = mp.get_context('fork')
    recv, send = mpctx.Pipe(duplex=False)
    p = mpctx.Process(target=child, args=(send,))
    p.start()
    send.close()
    try:
        msg = pickle.loads(recv.recv_bytes())
    except EOFError:
        msg = 'the process died'
    p.join()
    return msg


def _confirm(suite, violation, scratch):
    """Reproduce a failure from scratch: (cases before, case, message).

    If the failing case does not fail alone, the failure depends on the
    previous calls in the same process: the shortest history found that makes
    it fail is part of the failure.
    """
    case = violation['case']
    msg = _run_all(suite, [case], scratch)
    if msg is not None:
        return [], case, msg
    before, case = violation['history'][:-1], violation['history'][-1]
    msg = _run_all(suite, [case], scratch)
    if msg is not None:
        return [], case, msg
    if _run_all(suite, [*before, case], scratch) is None:
        return None
    t0 = time.time()
    size = max(1, len(before) // 2)
    while time.time() - t0 < SHRINK_SECONDS:
        for i in range(0, len(before), size):
            less = before[:i] + before[i + size:]
            if time.time() - t0 < SHRINK_SECONDS and _run_all(
                    suite, [*less, case], scratch) is not None:
                before = less
                break
        else:
            if size == 1:
                break
            size = max(1, size // 2)
    msg = _run_all(suite, [*before, case], scratch)
    return before, case, f'after other calls in the same process: {msg}'


# --------------------------------------------------------------------------
# known findings

def load_findings(prop):
    """[(kind, suite, case, text)] for `prop` from KNOWN_FINDINGS.txt.

    Lines:  known: property=C10 suite=<name> case=<json> what=<text>
            fixed: property=C10 <commit> <what failed>        (suppresses nothing)
    """
    res = []
    path = os.path.join(env.VERIF, 'KNOWN_FINDINGS.txt')
    if not os.path.exists(path):
        return res
    with open(path, encoding='utf-8') as f:
        for line in f:
            line = line.rstrip('\n')
            if not line.startswith(f'known: property={prop} '):
                continue
            head, what = line.split(' what=', 1)
            head, case = head.split(' case=', 1)
            suite = head.split(' suite=', 1)[1].strip()
            res.append((suite, json.loads(case), what))
    return res


def load_regressions(prop):
    path = os.path.join(env.VERIF, 'pbt', 'regress', f'{prop}.jsonl')
    if not os.path.exists(path):
        return []
    with open(path, encoding='utf-8') as f:
        return [json.loads(line) for line in f if line.strip()]


# --------------------------------------------------------------------------

def main(mod, argv):
    import argparse
    parser = argparse.ArgumentParser()
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--seed', type=int,
                        default=int(os.environ.get('VERIF_SEED', '1') or 1))
    parser.add_argument('--replay')
    parser.add_argument('--suite')
    parser.add_argument('--scale', type=float, default=1.0)
    parser.add_argument('--workers', type=int, default=8)
    parser.add_argument('--no-evidence', action='store_true')
    opts = parser.parse_args(argv)
    prop = mod.PROPERTY
    tier = 'thorough' if opts.tier == 'thorough' else 'quick'
    t0 = time.time()
    random.seed(0)

    base = tempfile.mkdtemp(prefix=f'mdpo-{prop}-')
    try:
        return _main(mod, opts, prop, tier, t0, base)
    finally:
        os.chdir('/')
        shutil.rmtree(base, ignore_errors=True)


def _write_replay(prop, suite, case, msg):
    d = os.path.join(env.VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(
        d, f'{prop}-{suite}-{_digest(case).hex()}.json')
    with open(path, 'w', encoding='utf-8') as f:
        json.dump({'property': prop, 'suite': suite, 'case': case,
                   'message': msg}, f, indent=1, ensure_ascii=False,
                  default=str)
        f.write('\n')
    return path


def _main(mod, opts, prop, tier, t0, base):
    suites = {s.name: s for s in mod.SUITES}
    if opts.replay:
        with open(opts.replay, encoding='utf-8') as f:
            data = json.load(f)
        ctx = Ctx(base)
        os.chdir(base)
        case = data['case']
        if set(case) == {'before', 'case'}:
            for other in case['before']:
                run_case(suites[data['suite']], other, ctx)
            case = case['case']
        msg = run_case(suites[data['suite']], case, ctx)
        if msg is None:
            print(f'replay: property {prop} holds on this case')
            return 0
        print(msg)
        print(f'VIOLATION property={prop} replay={opts.replay}')
        return 1

    violations = []     # (suite, case, msg)
    errors = []
    evaluations, labels, digests, samples = 0, {}, set(), []
    per_suite = {}
    findings = load_findings(prop)

    # 1. fixed regressions and known findings: replayed, not generated
    ctx = Ctx(os.path.join(base, 'fixed'))
    os.mkdir(ctx.scratch)
    os.chdir(ctx.scratch)
    n_fixed = 0
    known_still = 0
    for suite_name, case, what in findings:
        try:
            msg = run_case(suites[suite_name], case, ctx)
        except Exception:
            errors.append(traceback.format_exc())
            continue
        if msg is not None:
            known_still += 1
            print(f'KNOWN-FINDING: property={prop} {what}')
    known_cases = [(s, c) for s, c, _ in findings]
    fixed_cases = [(r['suite'], r['case']) for r in load_regressions(prop)]
    for s in mod.SUITES:
        for c in s.seeds or ():
            fixed_cases.append((s.name, c))
    for suite_name, case in fixed_cases:
        if (suite_name, case) in known_cases:
            continue
        if opts.suite and suite_name != opts.suite:
            continue
        try:
            msg = run_case(suites[suite_name], case, ctx)
        except Exception:
            errors.append(traceback.format_exc())
            continue
        n_fixed += 1
        evaluations += 1
        if ctx.nontrivial_case:
            digests.add(suite_name.encode() + _digest(case))
        if msg is not None:
            violations.append((suite_name, case, msg))
    os.chdir(base)

    # 2. generated search
    mpctx = mp.get_context('fork')
    for idx, suite in enumerate(mod.SUITES):
        if opts.suite and suite.name != opts.suite:
            continue
        if violations:
            break
        total = suite.thorough if tier == 'thorough' else suite.quick
        if not total:
            continue            # only replays fixed cases
        total = max(1, int(total * opts.scale))
        n_workers = max(1, min(opts.workers, total))
        stop = mpctx.Event()
        procs = []
        for w in range(n_workers):
            scratch = os.path.join(base, f'{suite.name}-{w}')
            os.mkdir(scratch)
            recv, send = mpctx.Pipe(duplex=False)
            n = total // n_workers + (1 if w < total % n_workers else 0)
            p = mpctx.Process(target=_worker, args=(
                send, mod, idx, w, n_workers, n, opts.seed, scratch, stop))
            p.start()
            send.close()
            procs.append((p, recv))
        suite_eval, suite_digests, found = 0, set(), []
        for p, recv in procs:
            try:
                res = pickle.loads(recv.recv_bytes())
            except EOFError:
                p.join()
                errors.append(f'worker of suite {suite.name} died with exit '
                              f'code {p.exitcode}')
                continue
            p.join()
            if res.get('error'):
                errors.append(f'suite {suite.name}: {res["error"]}')
            if 'evaluations' not in res:
                continue
            suite_eval += res['evaluations']
            suite_digests |= res['digests']
            for k, v in res['labels'].items():
                key = f'{suite.name}: {k}'
                labels[key] = labels.get(key, 0) + v
            if res['samples'] and len(samples) < 6 and not any(
                    s['suite'] == suite.name for s in samples[-1:]):
                samples.append({'suite': suite.name, 'case': res['samples'][-1]})
            if res['violation']:
                found.append(res['violation'])
        for v in found:
            # confirmed in a new process; the rest are harness errors
            done = _confirm(suite, v, os.path.join(base, 'confirm'))
            if done is None:
                errors.append('failure did not reproduce outside the generator'
                              f': {v["msg"]}\n{json.dumps(v["case"])}')
            else:
                before, case, msg = done
                if before:
                    case = {'before': before, 'case': case}
                violations.append((suite.name, case, msg))
                if before:
                    break
        os.chdir(base)
        evaluations += suite_eval
        digests |= {suite.name.encode() + d for d in suite_digests}
        per_suite[suite.name] = {
            'cases': suite_eval, 'distinct_nontrivial': len(suite_digests)}

    # 3. report
    if violations:
        violations.sort(key=lambda v: len(json.dumps(v[1], default=str)))
    seen = set()
    for suite_name, case, msg in violations[:3]:
        key = msg.split('\n')[0]
        if key in seen:
            continue
        seen.add(key)
        path = _write_replay(prop, suite_name, case, msg)
        print(f'--- {prop}/{suite_name}: {msg}')
        print('    case: ' + json.dumps(case, ensure_ascii=False, default=str)[:3000])
        print(f'VIOLATION property={prop} replay={path}')
    for e in errors:
        print(f'HARNESS ERROR: {e}', file=sys.stderr)

    coverage = {
        'evaluations': evaluations,
        'distinct_nontrivial': len(digests),
        'rule': mod.RULE,
        'samples': samples or [{'note': 'no generated case was sampled'}],
        'suites': per_suite,
        'fixed_cases_replayed': n_fixed,
        'labels': dict(sorted(labels.items())),
        'known_findings_reproduced': known_still,
    }
    evidence = {
        'property': prop, 'tier': tier, 'seed': opts.seed,
        'level': 'exploration', 'coverage': coverage,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if not opts.no_evidence:
        d = os.path.join(env.VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f'{prop}.json'), 'w', encoding='utf-8') as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False, default=str)
            f.write('\n')
    print(f'{prop}: {evaluations} cases, {len(digests)} distinct non-trivial, '
          f'{len(violations)} violation(s), {evidence["wall_s"]} s')
    if violations:
        return 1
    if errors:
        return 2
    return 0
