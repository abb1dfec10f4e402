"""Drives the generated checks: sharding, shrinking, confirming, evidence."""
import hashlib
import importlib
import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from pbt.core import Violation, Skip, HarnessError, dec

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
NSHARDS = int(os.environ.get('VERIF_SHARDS', '8'))
CASE_TIMEOUT = 150.0
SHRINK_SECONDS = 40.0
RESTART_EVERY = 400


def prop_ids():
    d = os.path.join(VERIF, 'pbt', 'props')
    return sorted(f[:-3].upper() for f in os.listdir(d)
                  if f.startswith('c') and f.endswith('.py'))


def load(pid):
    return importlib.import_module('pbt.props.' + pid.lower()).PROP


class NoAnswer(Violation):
    """A case that takes milliseconds did not end."""


class Worker(object):
    def __init__(self, executors):
        self.dir = tempfile.mkdtemp(prefix='vw')
        env = dict(os.environ)
        env.update({'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
                    'MKL_NUM_THREADS': '1', 'PYTHONHASHSEED': '0',
                    'PYTHONDONTWRITEBYTECODE': '1',
                    # never read bytecode left beside the sources
                    'PYTHONPYCACHEPREFIX': os.path.join(self.dir, 'pyc'),
                    'VERIF_EXECUTORS': ','.join(executors)})
        env.pop('PYTHONPATH', None)
        self.err = open(os.path.join(self.dir, 'stderr'), 'w+')
        self.proc = subprocess.Popen(
            [PYPY, os.path.join(VERIF, 'worker', 'worker.py')],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            env=env, cwd=self.dir)
        self.buf = b''
        self.log = []
        hello = self._read(120.0)
        if not hello.get('ready'):
            exc = hello.get('exc', {})
            self.close()
            if exc.get('lib'):
                raise Violation('the library cannot be imported: %s: %s'
                                % (exc.get('type'), exc.get('msg')))
            raise HarnessError('worker did not start: %r' % (hello,))

    def _read(self, timeout):
        fd = self.proc.stdout.fileno()
        end = time.monotonic() + timeout
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                raise NoAnswer('no answer within %gs' % timeout)
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                continue
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                raise HarnessError('worker died: %s' % self._stderr())
            self.buf += chunk
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def _stderr(self):
        try:
            self.err.flush()
            self.err.seek(0)
            return self.err.read()[-2000:]
        except Exception:
            return ''

    def call(self, ex, case):
        self.log.append([ex, case])
        self.proc.stdin.write((json.dumps({'ex': ex, 'case': case}) + '\n').encode())
        self.proc.stdin.flush()
        return self._read(CASE_TIMEOUT)

    def close(self):
        try:
            self.proc.kill()
            self.proc.wait()
        except Exception:
            pass
        for s in (self.proc.stdin, self.proc.stdout, self.err):
            try:
                s.close()
            except Exception:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)


def judge_case(sub, case, resp):
    """Raise Violation / Skip / HarnessError, or return class labels."""
    if 'exc' in resp:
        exc = resp['exc']
        if sub.on_exc is not None:
            return sub.on_exc(case, exc) or ()
        if exc['lib']:
            raise Violation('the library raised %s on a valid input: %s (at %s)'
                            % (exc['type'], exc['msg'], exc['tb'][-3:]))
        if exc['type'] in ('MemoryError', 'OSError', 'KeyboardInterrupt'):
            raise HarnessError('executor failed: %r' % (exc,))
        # The executors run through on what the library gives back today.
        raise Violation('what the library gave back could not be used: %s: %s (at %s)'
                        % (exc['type'], exc['msg'], exc['tb'][-3:]))
    obs = dec(resp['obs'], 'observation')
    try:
        return sub.judge(case, obs) or ()
    except (Violation, Skip, HarnessError):
        raise
    except (TypeError, ValueError, IndexError, KeyError, AttributeError) as err:
        # The judges run through on results of the right kind and shape.
        raise Violation('the result is not of the expected form: %s: %s (%s)' % (
            type(err).__name__, err, traceback.format_exc().strip().split('\n')[-3].strip()))


def run_shard(pid, shard, nshards, tier, seed, soft, outfile):
    import hypothesis
    if shard % 4:
        # five of six cases would be variations of the case before them, with
        # parts of it copied over other parts: leave that to every fourth shard
        from hypothesis.internal.conjecture.engine import ConjectureRunner
        if hasattr(ConjectureRunner, 'generate_mutations_from'):
            ConjectureRunner.generate_mutations_from = lambda self, data: None
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity
    prop = load(pid)
    state = {'worker': None, 'calls': 0}
    result = {'evaluations': 0, 'nontrivial': [], 'classes': {}, 'samples': [],
              'failures': [], 'known': {}, 'skipped': 0, 'per_sub': {},
              'error': None, 'soft_hit': False}
    hashes = set()
    t_start = time.monotonic()

    def worker():
        if state['worker'] is None or state['calls'] >= RESTART_EVERY:
            if state['worker'] is not None:
                state['worker'].close()
            state['worker'] = Worker(prop.executors)
            state['calls'] = 0
        state['calls'] += 1
        return state['worker']

    try:
        for sub_i, sub in enumerate(prop.subs):
            total = sub.quick if tier == 'quick' else sub.thorough
            n = total // nshards + (1 if shard < total % nshards else 0)
            if n == 0:
                continue
            best = {}
            stats = {'cases': 0, 'skipped': 0}
            # share the soft limit over the subs that are left
            left_w = sum((s.quick if tier == 'quick' else s.thorough)
                         for s in prop.subs[sub_i:])
            deadline = time.monotonic() + max(
                5.0, (soft - (time.monotonic() - t_start)) * max(total / left_w, 0.25))

            def test(case):
                now = time.monotonic()
                if best:
                    if now > best['first'] + SHRINK_SECONDS:
                        return
                elif now > deadline:
                    result['soft_hit'] = True
                    return
                w = worker()
                if not best:
                    stats['cases'] += 1
                try:
                    try:
                        resp = w.call(sub.ex, case)
                    except NoAnswer:
                        state['worker'] = None
                        w.close()
                        raise
                    labels = list(judge_case(sub, case, resp))
                except (Skip, OverflowError):
                    # an overflow in the reference itself
                    stats['skipped'] += 1
                    return
                except Violation as v:
                    msg = str(v)
                    for key, pred in prop.findings:
                        if pred(sub.name, case, msg):
                            result['known'].setdefault(key, msg)
                            return
                    text = json.dumps(case, sort_keys=True)
                    if not best:
                        best['first'] = now
                    if 'text' not in best or (len(text), text) < (len(best['text']), best['text']):
                        best.update(text=text, case=case, msg=msg,
                                    history=list(w.log))
                    raise
                if not best:
                    text = json.dumps(case, sort_keys=True)
                    h = hashlib.sha1((sub.name + text).encode()).hexdigest()[:16]
                    if sub.nontrivial(case):
                        if h not in hashes and len(text) < 1500 and \
                                sum(s['sub'] == sub.name for s in result['samples']) < 2 \
                                and stats['cases'] > 3:
                            result['samples'].append({'sub': sub.name, 'case': case})
                        hashes.add(h)
                    for lab in labels:
                        k = sub.name + ':' + lab
                        result['classes'][k] = result['classes'].get(k, 0) + 1

            wrapped = hypothesis.seed(
                int(hashlib.sha1(('%s/%s/%d/%d' % (pid, sub.name, seed, shard)
                                  ).encode()).hexdigest()[:12], 16))(
                settings(max_examples=n, database=None, deadline=None,
                         report_multiple_bugs=False, print_blob=False,
                         verbosity=Verbosity.quiet,
                         phases=(Phase.generate, Phase.shrink),
                         suppress_health_check=list(HealthCheck))(
                    given(sub.strategy)(test)))
            try:
                wrapped()
            except HarnessError:
                raise
            except BaseException:
                if not best:
                    raise
            result['evaluations'] += stats['cases']
            result['skipped'] += stats['skipped']
            result['per_sub'][sub.name] = stats
            if best:
                result['failures'].append(
                    {'sub': sub.name, 'case': best['case'], 'msg': best['msg'],
                     'history': best['history'][-RESTART_EVERY:]})
    except BaseException as exc:
        result['error'] = ''.join(traceback.format_exception(
            type(exc), exc, exc.__traceback__))[-3000:]
        if isinstance(exc, Violation):
            result['failures'].append({'sub': None, 'case': None,
                                       'msg': str(exc), 'history': []})
            result['error'] = None
    finally:
        if state['worker'] is not None:
            state['worker'].close()
    result['nontrivial'] = sorted(hashes)
    with open(outfile, 'w') as f:
        json.dump(result, f)


def replay_sequence(prop, seq, sub, case):
    """Run seq then case in a fresh worker; return the violation or None."""
    w = Worker(prop.executors)
    try:
        for ex, c in seq:
            w.call(ex, c)
        resp = w.call(sub.ex, case)
    except NoAnswer as v:
        return str(v)
    finally:
        w.close()
    try:
        judge_case(sub, case, resp)
    except Violation as v:
        return str(v)
    except Skip:
        return None
    return None


def confirm(prop, failure):
    """Returns (message, preceding cases needed) or None."""
    if failure['sub'] is None:
        try:
            Worker(prop.executors).close()
        except Violation as v:
            return str(v), []
        return None
    sub = next(s for s in prop.subs if s.name == failure['sub'])
    msg = replay_sequence(prop, [], sub, failure['case'])
    if msg:
        return msg, []
    # The failure may need what earlier cases did to the process.
    seq = failure['history'][:-1]
    if not seq or replay_sequence(prop, seq, sub, failure['case']) is None:
        return None
    end = time.monotonic() + 60
    chunk = max(1, len(seq) // 2)
    while chunk >= 1 and time.monotonic() < end:
        i, shrunk = 0, False
        while i < len(seq) and time.monotonic() < end:
            cand = seq[:i] + seq[i + chunk:]
            if replay_sequence(prop, cand, sub, failure['case']):
                seq, shrunk = cand, True
            else:
                i += chunk
        if chunk == 1 and not shrunk:
            break
        chunk = max(1, chunk // 2) if not shrunk or chunk > 1 else 1
    return replay_sequence(prop, seq, sub, failure['case']) or failure['msg'], seq


def findings_file():
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                out.append(line)
    return out


def check(pid):
    t0 = time.monotonic()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    soft = float(os.environ.get(
        'VERIF_SOFT', '150' if tier == 'quick' else '3000'))
    prop = load(pid)
    tmp = tempfile.mkdtemp(prefix='vchk')
    procs, files = [], []
    try:
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = '0'
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['OPENBLAS_NUM_THREADS'] = '1'
        for s in range(NSHARDS):
            out = os.path.join(tmp, '%d.json' % s)
            files.append(out)
            procs.append(subprocess.Popen(
                [sys.executable, os.path.join(VERIF, 'check.py'), 'shard', pid,
                 str(s), str(NSHARDS), tier, str(seed), str(soft), out],
                env=env, cwd=VERIF))
        for p in procs:
            p.wait()
        results = []
        for f in files:
            if not os.path.exists(f):
                print('ERROR: a shard of %s gave no result' % pid)
                return 2
            with open(f) as fh:
                results.append(json.load(fh))
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)

    failures = [f for r in results for f in r['failures']]
    errors = [r['error'] for r in results if r['error']]
    violations = []
    unconfirmed = []
    seen = set()
    for f in sorted(failures, key=lambda f: len(json.dumps(f['case']))):
        if f['sub'] in seen:
            continue
        try:
            ok = confirm(prop, f)
        except HarnessError as exc:
            errors.append(str(exc))
            continue
        if ok is None:
            unconfirmed.append(f)
            continue
        seen.add(f['sub'])
        msg, before = ok
        doc = {'property': pid, 'sub': f['sub'], 'message': msg,
               'case': f['case'], 'before': before, 'seed': seed}
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        text = json.dumps(doc, indent=1, sort_keys=True)
        path = os.path.join('replays', '%s-%s.json' % (
            pid, hashlib.sha1(json.dumps([f['sub'], f['case']], sort_keys=True
                                         ).encode()).hexdigest()[:10]))
        with open(os.path.join(VERIF, path), 'w') as fh:
            fh.write(text + '\n')
        violations.append((path, doc))

    nontrivial = set()
    classes, per_sub, samples, known = {}, {}, [], {}
    for r in results:
        nontrivial.update(r['nontrivial'])
        known.update(r['known'])
        for k, v in r['classes'].items():
            classes[k] = classes.get(k, 0) + v
        for k, v in r['per_sub'].items():
            d = per_sub.setdefault(k, {'cases': 0, 'skipped': 0})
            for kk in d:
                d[kk] += v[kk]
    have = {}
    for r in results:
        for s in r['samples']:
            if have.get(s['sub'], 0) < 2:
                have[s['sub']] = have.get(s['sub'], 0) + 1
                samples.append(s)
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': len(nontrivial),
            'rule': prop.rule,
            'samples': samples,
            'per_check': per_sub,
            'classes': dict(sorted(classes.items())),
            'skipped_ill_conditioned': sum(r['skipped'] for r in results),
            'stopped_by_time': sum(bool(r['soft_hit']) for r in results),
        },
        'assumptions': prop.assumptions,
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1)
        fh.write('\n')

    for key, msg in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, key))
    cov = evidence['coverage']
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d skipped, %.1fs'
          % (pid, tier, seed, cov['evaluations'], cov['distinct_nontrivial'],
             cov['skipped_ill_conditioned'], evidence['wall_s']))
    for path, doc in violations:
        print('  [%s] %s' % (doc['sub'], doc['message']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if violations:
        return 1
    for f in unconfirmed:
        print('ERROR: a failure did not reproduce: [%s] %s' % (f['sub'], f['msg']))
    for e in errors:
        print('ERROR: %s' % e)
    if errors or unconfirmed:
        return 2
    return 0


def replay(path):
    doc = json.load(open(path))
    prop = load(doc['property'])
    if doc['sub'] is None:
        r = confirm(prop, doc)
        msg = r[0] if r else None
    else:
        sub = next(s for s in prop.subs if s.name == doc['sub'])
        msg = replay_sequence(prop, doc.get('before', []), sub, doc['case'])
    if msg:
        print('[%s] %s' % (doc['sub'], msg))
        print('VIOLATION property=%s replay=%s' % (doc['property'], path))
        return 1
    print('property=%s holds on %s' % (doc['property'], path))
    return 0
