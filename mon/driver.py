"""Runs one check: python -m mon.driver C01 [--tier quick|thorough] [--replay FILE].

Exit 0: held on everything explored; 1: violation (VIOLATION line); 2: inconclusive.
"""

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
SOFT_CAP = {'quick': 420.0, 'thorough': 3 * 3600.0}
CASE_CAP = 300.0  # watchdog of a single case, inconclusive when it fires
MAX_VIOLATIONS = 4


def raised_by_library(e):
    """Whether an exception that no check expected comes from the code under test and not from the harness or XLA."""
    from mon.env import REPO

    if not isinstance(e, Exception) or isinstance(e, MemoryError) or type(e).__name__ in ('XlaRuntimeError', 'JaxRuntimeError'):
        return False
    lib, here = os.path.join(os.path.realpath(REPO), 'folx') + os.sep, os.path.realpath(os.path.dirname(os.path.dirname(__file__))) + os.sep
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        name = os.path.realpath(f.filename)
        if name.startswith(lib):
            return True
        if name.startswith(here):
            return False
    return False


def load_known(prop):
    """Mechanism keys of the open findings of this property."""
    keys = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('open:'):
                parts = line.split(None, 3)
                p = parts[1].split('=', 1)[1]
                k = parts[2].split('=', 1)[1]
                if p == prop:
                    keys[k] = parts[3] if len(parts) > 3 else ''
    return keys


def worker_main(conn, prop):
    sys.path.insert(0, VERIF)
    try:
        from mon import env

        env.load()
        mod = importlib.import_module('checks.' + prop.lower())
        import jax

        conn.send(('ready', None))
    except BaseException:
        conn.send(('fatal', traceback.format_exc()))
        return
    done = 0
    while True:
        try:
            case = conn.recv()
        except EOFError:
            return
        if case is None:
            return
        t = time.time()
        try:
            res = mod.run(case)
        except BaseException as e:
            text = traceback.format_exc()[-3000:]
            if raised_by_library(e):
                res = {'status': 'violation', 'problems': [f'the library raised {text[-1500:]}'], 'detail': {'case': case}}
            else:
                res = {'status': 'error', 'problems': [text]}
        res['wall'] = time.time() - t
        try:
            conn.send(('res', res))
        except Exception:
            conn.send(('res', {'status': 'error', 'problems': ['unsendable result'], 'wall': 0}))
        done += 1
        if done % 20 == 0:
            jax.clear_caches()


class Runner:
    def __init__(self, prop, cases, cap, n_workers, known=()):
        self.prop, self.cases, self.cap = prop, cases, cap
        self.lock = threading.Lock()
        self.next = 0
        self.results = [None] * len(cases)
        self.n_workers = max(1, min(n_workers, len(cases)))
        self.known = known
        self.violations = 0
        self.fatal = None
        self.t0 = time.time()
        self.capped = False
        self.died, self.retry = set(), []

    def take(self):
        with self.lock:
            if self.fatal or self.violations >= MAX_VIOLATIONS:
                return None
            if time.time() - self.t0 > self.cap:
                self.capped = True
                return None
            if self.retry:
                return self.retry.pop()
            if self.next >= len(self.cases):
                return None
            self.next += 1
            return self.next - 1

    def spawn(self):
        ctx = mp.get_context('spawn')
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker_main, args=(b, self.prop), daemon=True)
        p.start()
        b.close()
        try:
            kind, msg = a.recv() if a.poll(180) else ('fatal', 'worker start timed out')
        except EOFError:
            kind, msg = 'fatal', 'worker died while starting'
        if kind == 'fatal':
            with self.lock:
                self.fatal = msg
            p.kill()
            return None, None
        return p, a

    def serve(self):
        p = conn = None
        used = 0
        while True:
            i = self.take()
            if i is None:
                break
            if p is None:
                p, conn = self.spawn()
                used = 0
                if p is None:
                    return
            try:
                conn.send(self.cases[i])
                if conn.poll(CASE_CAP):
                    res = conn.recv()[1]
                else:
                    res = {'status': 'error', 'problems': ['watchdog of the case fired']}
                    p.kill()
                    p = None
            except (EOFError, OSError, BrokenPipeError):
                res = {'status': 'error', 'problems': ['worker died']}
                p.kill()
                p = None
                with self.lock:
                    # once more: the sandbox ends processes when memory runs low
                    again = i not in self.died
                    self.died.add(i)
                    if again:
                        self.retry.append(i)
                        continue
            with self.lock:
                self.results[i] = res
                if res['status'] == 'violation' and res.get('known') not in self.known:
                    self.violations += 1
            used += 1
            if p is not None and used >= 60:
                conn.send(None)
                p.join(10)
                p = None
        if p is not None:
            try:
                conn.send(None)
                p.join(5)
            except Exception:
                pass
            p.kill()

    def run(self):
        ts = [threading.Thread(target=self.serve) for _ in range(self.n_workers)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


def stable(o):
    return json.dumps(o, sort_keys=True, default=str)


def save_replay(prop, case, res):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(stable(case).encode()).hexdigest()[:10]
    path = os.path.join(d, f'{prop}-{h}.json')
    with open(path, 'w') as f:
        json.dump(
            {
                'property': prop,
                'case': case,
                'problems': res.get('problems'),
                'detail': res.get('detail'),
                'rerun': f'/opt/venv/bin/python -m mon.driver {prop} --replay {path}',
            },
            f,
            indent=1,
            default=str,
        )
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop.upper(), a.tier
    sys.path.insert(0, VERIF)
    if a.replay:
        from mon import env

        env.load()
        mod = importlib.import_module('checks.' + prop.lower())
        res = mod.run(json.load(open(a.replay))['case'])
        print(json.dumps(res, indent=1, default=str))
        if res['status'] == 'violation':
            print(f'VIOLATION property={prop} replay={a.replay}')
            return 1
        return 0 if res['status'] in ('ok', 'trivial') else 2
    t0 = time.time()
    spec = importlib.import_module('checks.' + prop.lower())
    cases = spec.cases(tier, a.seed)
    known = load_known(prop)
    r = Runner(prop, cases, SOFT_CAP[tier], WORKERS, known)
    r.run()
    counts, events, tags = {}, {}, {}
    distinct = set()
    samples, violations, errors, findings = [], [], [], {}
    evaluations = 0
    for case, res in zip(cases, r.results):
        if res is None:
            continue
        st = res['status']
        key = res.get('known')
        if st == 'violation' and key is not None and key in known:
            findings[key] = res
            st = 'known'
        counts[st] = counts.get(st, 0) + 1
        evaluations += int(res.get('evaluations', 1))
        for k, v in res.get('events', {}).items():
            events[k] = events.get(k, 0) + v
        for t in res.get('tags', []):
            tags[t] = tags.get(t, 0) + 1
        if st in ('ok', 'violation', 'known'):
            distinct.add(stable(res.get('key', case)))
            if len(samples) < 6 and len(samples) * 7 <= len(distinct):
                samples.append({'case': case, 'detail': res.get('detail'), 'status': st})
        if st == 'violation':
            violations.append((case, res))
        elif st == 'error':
            errors.append((case, res))
    missing = []
    if r.fatal:
        missing.append('worker failed to start: ' + r.fatal)
    ran = sum(x is not None for x in r.results)
    need = getattr(spec, 'MIN_FRACTION', 0.5)
    if ran < need * len(cases) and not violations:
        missing.append(f'only {ran} of {len(cases)} cases ran within the time limit')
    if len(errors) > 0.02 * max(ran, 1):
        missing.append(f'{len(errors)} cases failed in the harness: {errors[0][1]["problems"][0][-700:]}')
    if counts.get('ok', 0) < getattr(spec, 'MIN_OK', 1):
        missing.append(f'only {counts.get("ok", 0)} non-trivial cases')
    for k, v in getattr(spec, 'MIN_EVENTS', {}).items():
        if events.get(k, 0) < v * ran / max(len(cases), 1) * 0.5:
            missing.append(f'monitor event {k} seen {events.get(k, 0)} times only')
    ev = {
        'property': prop,
        'tier': tier,
        'seed': a.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(distinct),
            'rule': spec.RULE,
            'samples': samples or [{'case': cases[0]}],
            'cases_planned': len(cases),
            'cases_run': ran,
            'case_outcomes': counts,
            'monitor_events': events,
            'seen': tags,
            'stopped_by_time': r.capped,
        },
        'assumptions': getattr(spec, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f'.{prop}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, f'{prop}.json'))
    for k, res in sorted(findings.items()):
        print(f'KNOWN-FINDING: property={prop} {known[k]}')
    if a.verbose:
        for c, res in errors[:5]:
            print('ERROR', stable(c)[:300], res['problems'][0])
        slow = sorted((x['wall'], stable(c)[:150]) for c, x in zip(cases, r.results) if x and 'wall' in x)
        print('slowest', slow[-5:])
        print(json.dumps(ev['coverage']['monitor_events']), json.dumps(ev['coverage']['seen']))
    print(f'{prop} {tier} seed={a.seed}: {ran}/{len(cases)} cases {counts} {time.time()-t0:.0f}s')
    if violations:
        for case, res in violations[:MAX_VIOLATIONS]:
            path = save_replay(prop, case, res)
            for p in res['problems'][:3]:
                print('  ', p[:600])
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    if missing:
        print('INCONCLUSIVE: ' + '; '.join(missing))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
