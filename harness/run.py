#!/opt/venv/bin/python
"""Decides one property.

    run.py check C11 [--tier quick|thorough]
    run.py replay out/replay/C11-....json
    run.py list

A check (1) model-checks the design specification with the property's
invariants, (2) makes scenarios, from TLC's enumeration of the specification
and from a seeded generator, (3) executes them on the code in /repo and
records events, (4) has TLC validate the events against the specification,
(5) shows on corrupted copies of the events that the validation rejects
deviations, (6) writes the evidence file.
Exit: 0 holds, 1 violated, 2 the machinery failed.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from concurrent.futures import ThreadPoolExecutor

for k, v in dict(PYTHONHASHSEED='0', MPLBACKEND='Agg', TZ='UTC',
                 OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1').items():
    os.environ[k] = v
if os.path.isdir('/opt/venv/mplconfig'):
    os.environ.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
sys.dont_write_bytecode = True

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(VERIF, 'out')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

from tlc import MachineryError, action_counts, tlc  # noqa: E402

NCPU = max(1, min(8, os.cpu_count() or 1))
SCENARIO_TIMEOUT = 240
EVAL_ERRORS = ('Attempted to', 'was not in the domain', 'Overflow',
               'overflow', 'evaluating', 'applied to', 'In evaluation',
               'The following behavior', 'computed', 'argument', 'CHOOSE',
               'TLC threw', 'TLCRuntimeException', 'null')


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


_MOD = None


def load(pid):
    """The module props/<x>.py that decides property pid."""
    return importlib.import_module('props.' + pid.lower())


def _init_worker(pid):
    global _MOD
    warnings.filterwarnings('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    signal.signal(signal.SIGALRM, _alarm)
    _MOD = load(pid)


def _drive(item):
    i, sc = item
    import numpy as np
    np.random.seed((sc.get('seed', 0) + 12345) % (2 ** 32))
    signal.alarm(SCENARIO_TIMEOUT)
    try:
        recs = _MOD.drive(sc)
        json.dumps(recs)
    except Timeout:
        recs = [dict(ev='Broken', why='timeout')]
    except Exception:
        recs = [dict(ev='Broken', why=traceback.format_exc()[-3500:])]
    finally:
        signal.alarm(0)
    for j, r in enumerate(recs):
        r['begin'] = (j == 0)
        r['scn'] = i
    return i, recs


def drive_all(pid, scenarios):
    """Execute the scenarios; returns a list of event lists."""
    res = [None] * len(scenarios)
    n = min(NCPU, max(1, len(scenarios)))
    ctx = mp.get_context('fork')
    with ctx.Pool(n, _init_worker, (pid,)) as pool:
        for i, recs in pool.imap_unordered(
                _drive, list(enumerate(scenarios)),
                chunksize=max(1, min(8, len(scenarios) // (n * 4) or 1))):
            res[i] = recs
    return res


def _validate_chunk(module, lines, tmp, idx, timeout):
    """Returns (fails {line: [clauses]}, states)."""
    path = os.path.join(tmp, 'trace%d.ndjson' % idx)
    with open(path, 'w') as f:
        f.write('\n'.join(json.dumps(x) for x in lines) + '\n')
    fails, states, first = {}, 0, 1
    restarts, hung = 0, []
    while first <= len(lines):
        r = tlc(module, env={'TRACE': path, 'FIRST': str(first)},
                timeout=timeout, heap='3g')
        states += r['distinct']
        for a, b in re.findall(r'^"@@FAIL (\d+) (.*)"$', r['out'], re.M):
            fails[int(a)] = re.findall(r'\\"([^"\\]*)\\"', b)
        seen = [int(x) for x in re.findall(r'"@@EV (\d+)"', r['out'])]
        if r['ok']:
            if not seen or max(seen) != len(lines):
                raise MachineryError('%s consumed %s of %d events\n%s' % (
                    module, seen[-1:], len(lines), r['out'][-2000:]))
            break
        # The specification has no value for the event after the last one
        # that was completed: the event is outside of its behaviours.
        msg = r['out']
        nxt = (max(seen) + 1) if seen else first
        if r['rc'] == -9 and 'Starting...' in msg and \
                nxt <= len(lines) and len(hung) < 3:
            # not decided: an answer only if other events decide the matter
            hung.append(nxt)
            first, timeout = nxt + 1, min(timeout, 60)
            continue
        if r['rc'] == -9 or 'Parsing' not in msg or \
                'Starting...' not in msg or 'Error:' not in msg or \
                'OutOfMemory' in msg or 'StackOverflow' in msg:
            raise MachineryError('%s: rc=%s\n%s' % (
                module, r['rc'], msg[-3000:]))
        if nxt > len(lines):
            raise MachineryError(msg[-3000:])
        err = ' '.join(x.strip() for x in msg[msg.index('Error:'):]
                       .splitlines()[:6])[:600]
        fails.setdefault(nxt, []).append('undefined: ' + err)
        first = nxt + 1
        restarts += 1
        if restarts > 12:
            break
    for i in hung:
        if i not in fails:
            fails[i] = ['undecided']
    return fails, states


def validate(module, traces, tmp, timeout=None, tag='', chunks=None):
    """traces: list of event lists. Returns ({(trace, event): clauses},
    states)."""
    timeout = timeout or (
        400 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 3000)
    n = chunks or NCPU
    n = max(1, min(n, len(traces)))
    groups = [[] for _ in range(n)]
    order = sorted(range(len(traces)), key=lambda i: -len(
        json.dumps(traces[i])) if len(traces) < 3000 else 0)
    load_ = [0] * n
    for i in order:
        g = load_.index(min(load_))
        groups[g].append(i)
        load_[g] += sum(len(json.dumps(r)) for r in traces[i]) + 50
    jobs = []
    for g, ids in enumerate(groups):
        lines, where = [], []
        for i in ids:
            for j, r in enumerate(traces[i]):
                lines.append(r)
                where.append((i, j))
        jobs.append((lines, where))
    fails, states = {}, 0
    with ThreadPoolExecutor(n) as ex:
        futs = [ex.submit(_validate_chunk, module, lines, tmp,
                          hash((tag, k)) % 10 ** 8, timeout)
                for k, (lines, _) in enumerate(jobs) if lines]
        ws = [w for lines, w in jobs if lines]
        for f, where in zip(futs, ws):
            fl, st = f.result()
            states += st
            for ln, cl in fl.items():
                fails[where[ln - 1]] = cl
    return fails, states


def model_check(mc, tier):
    """mc: list of dict(module, cfg, thorough_cfg, workers, timeout).
    Returns (states, distinct, outs)."""
    tot_s = tot_d = 0
    outs = []
    for m in mc:
        cfg = m.get('cfg', m['module'] + '.cfg')
        if tier == 'thorough':
            cfg = m.get('thorough_cfg', cfg)
        cov = m.get('coverage', True)
        r = tlc(m['module'], cfg, env=dict(m.get('env', {})),
                workers=m.get('workers', NCPU),
                timeout=m.get('timeout', 800), heap=m.get('heap', '6g'),
                coverage=cov, extra=m.get('extra', ()))
        if not r['ok']:
            raise MachineryError('model checking %s failed\n%s' % (
                cfg, r['out'][-4000:]))
        # (without coverage, which is slow for deep operators, the terminal
        # states of the scenarios show that the actions are taken)
        acts = action_counts(r['out'])
        for a, (d, t) in acts.items():
            if t == 0 and a not in m.get('may_be_idle', ()):
                raise MachineryError('%s: action %s is never taken' % (
                    cfg, a))
        if not (acts if cov else tlc_scenarios(r)):
            raise MachineryError('%s: nothing explored' % cfg)
        tot_s += r['states']
        tot_d += r['distinct']
        outs.append((m, r))
    return tot_s, tot_d, outs


def tlc_scenarios(r):
    """Scenarios printed by a generating model: lines "@@SCN <json>"."""
    res = []
    for s in re.findall(r'^"@@SCN (.*)"$', r['out'], re.M):
        res.append(json.loads(s.replace('\\"', '"').replace('\\\\', '\\')))
    return res


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', [])
            if k['property'] == pid]


def is_known(known, sc, clauses):
    for k in known:
        if sc.get('known') == k['key'] and set(clauses) <= set(k['clauses']):
            return k
    return None


def write_replay(pid, sc, recs, bad):
    d = os.path.join(OUT, 'replay')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, '%s-%s.json' % (pid, h))
    with open(p, 'w') as f:
        json.dump(dict(property=pid, scenario=sc, events=recs, failing=bad),
                  f, indent=1)
    return p


class Ctx:
    def __init__(self, pid, tier, seed, gen):
        import random
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random('%s/%s' % (pid, seed))
        self.gen = gen          # scenarios printed by TLC, per module

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def sample(self, seq, n):
        seq = list(seq)
        if len(seq) <= n:
            return seq
        return self.rng.sample(seq, n)


def relevant(pid, clauses, owns):
    return [c for c in clauses if c.startswith('undefined') or
            owns is None or any(c.startswith(o) for o in owns)]


def check(pid, tier):
    t0 = time.time()
    os.environ['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = load(pid)
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        s, d, outs = model_check(mod.MC, tier)
        gen = {}
        for m, r in outs:
            gen.setdefault(m['module'], []).extend(tlc_scenarios(r))
        t1 = time.time()
        ctx = Ctx(pid, tier, seed, gen)
        scenarios = mod.scenarios(ctx)
        if not scenarios:
            raise MachineryError('no scenarios')
        traces = drive_all(pid, scenarios)
        t2 = time.time()
        broken = {i: [r for r in t if r.get('ev') == 'Broken']
                  for i, t in enumerate(traces)
                  if any(r.get('ev') == 'Broken' for r in t)}
        good = [i for i in range(len(traces)) if i not in broken]
        fails, cst = validate(mod.CONF, [traces[i] for i in good], tmp)
        t3 = time.time()
        known = known_findings(pid)
        viol, seen_known, other = [], {}, 0
        bad_by_scn = {}
        undecided = [k for k, cl in fails.items() if cl == ['undecided']]
        for (gi, j), cl in fails.items():
            if cl == ['undecided']:
                continue
            mine = relevant(pid, cl, getattr(mod, 'OWNS', None))
            if mine:
                bad_by_scn.setdefault(good[gi], []).append((j, mine))
            else:
                other += 1
        for i, b in broken.items():
            bad_by_scn.setdefault(i, []).append((0, ['broken: ' + b[0]['why'].strip().split('\n')[-1]]))
        for i, bad in sorted(bad_by_scn.items()):
            cls = sorted({c for _, cl in bad for c in cl})
            k = is_known(known, scenarios[i], cls)
            if k:
                seen_known.setdefault(k['key'], []).append(i)
            else:
                viol.append((i, bad, cls))
        if undecided and not viol:
            raise MachineryError('%s: time limit at events %s' % (
                mod.CONF, [(good[a], b) for a, b in undecided]))
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        nself = 0
        if not viol:
            nself = self_test(mod, ctx, [traces[i] for i in good],
                              [scenarios[i] for i in good], tmp, fails)
        nev = sum(len(t) for t in traces)
        ev = dict(
            property=pid, tier=tier, seed=seed, level='model_checking',
            coverage=dict(
                states=d + cst, transitions=s + nev,
                traces_validated_against_impl=len(good),
                events_validated=nev, model_states=d,
                scenarios_from_tlc=sum(len(v) for v in gen.values()),
                corrupted_traces_rejected=nself,
                clauses_of_other_properties_failing=other,
                samples=[dict(scenario=scenarios[i],
                              events=shorten(traces[i]))
                         for i in sample_ids(len(scenarios))],
                **mod.coverage(scenarios, traces)
                if hasattr(mod, 'coverage') else {}),
            assumptions=getattr(mod, 'ASSUMPTIONS', []),
            wall_s=round(time.time() - t0, 2), violations=len(viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d model states, %d scenarios, %d events, '
              '%d corrupted traces rejected, %d violations '
              '(mc %.1fs, run %.1fs, validate %.1fs, total %.1fs)' % (
                  pid, tier, d, len(scenarios), nev, nself, len(viol),
                  t1 - t0, t2 - t1, t3 - t2, time.time() - t0))
        for i, bad, cls in viol[:int(os.environ.get("NV", 5))]:
            p = write_replay(pid, scenarios[i], traces[i], bad)
            print('  failing clauses: %s' % ', '.join(cls)[:600])
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1 if viol else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def sample_ids(n):
    return sorted({0, n // 3, (2 * n) // 3})[:3]


def shorten(recs):
    s = json.dumps(recs)
    return recs if len(s) < 3000 else s[:3000] + '...'


def self_test(mod, ctx, traces, scenarios, tmp, fails=()):
    """Corrupted copies of traces have to be rejected.

    A corruption may happen to make no difference to what the specification
    decides (a value that is not compared for a series like this one); that
    nearly all are rejected, of every kind, shows that the validation works.
    Returns the number of the rejected ones.
    """
    if not hasattr(mod, 'corrupt'):
        return 0
    bad_ids = {i for i, _ in fails}
    cands = [i for i in range(len(traces)) if i not in bad_ids]
    ctx.rng.shuffle(cands)
    made, want = [], getattr(mod, 'SELF_TEST', 12)
    quota = {}
    for i in cands:
        if len(made) >= want:
            break
        c = mod.corrupt(json.loads(json.dumps(traces[i])), ctx.rng,
                        scenarios[i])
        if c is None:
            continue
        what, t = c
        if quota.get(what, 0) >= getattr(mod, 'SELF_TEST_PER_KIND', 3):
            continue
        quota[what] = quota.get(what, 0) + 1
        made.append((what, t))
    if not made:
        raise MachineryError('no corrupted traces could be made')
    f, _ = validate(mod.CONF, [t for _, t in made], tmp, tag='self',
                    chunks=2)
    owns = getattr(mod, 'OWNS', None)
    rejected = {i for (i, _), cl in f.items() if relevant(ctx.pid, cl, owns)}
    missed = [made[i] for i in range(len(made)) if i not in rejected]
    kinds = {}
    for what, _ in missed:
        kinds[what] = kinds.get(what, 0) + 1
        print('self-test: accepted: %s' % what)
    if len(missed) > max(1, len(made) // 4) or any(
            k >= 2 and k == quota[what] for what, k in kinds.items()):
        raise MachineryError(
            'validation accepts corrupted events: %s\n%s' % (
                missed[0][0], json.dumps(missed[0][1])[:2000]))
    return len(made) - len(missed)


def replay(path):
    r = json.load(open(path))
    pid = r['property']
    mod = load(pid)
    tmp = tempfile.mkdtemp(prefix='verif_replay_')
    try:
        traces = drive_all(pid, [r['scenario']])
        print(json.dumps(traces[0], indent=1)[:6000])
        if any(x.get('ev') == 'Broken' for x in traces[0]):
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        f, _ = validate(mod.CONF, traces, tmp)
        for (i, j), cl in sorted(f.items()):
            print('event %d: %s' % (j, cl))
        bad = [c for cl in f.values()
               for c in relevant(pid, cl, getattr(mod, 'OWNS', None))]
        if bad:
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay', 'list'])
    ap.add_argument('arg', nargs='?')
    ap.add_argument('--tier', default=None)
    a = ap.parse_args()
    warnings.filterwarnings('ignore')
    try:
        if a.cmd == 'check':
            rc = check(a.arg, a.tier or os.environ.get('VERIF_TIER', 'quick'))
        elif a.cmd == 'replay':
            rc = replay(a.arg)
        else:
            print('\n'.join(sorted(x[:-3].upper() for x in os.listdir(
                os.path.join(HERE, 'props')) if re.match(r'c\d+\.py$', x))))
            rc = 0
    except MachineryError as e:
        print('MACHINERY: %s' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
