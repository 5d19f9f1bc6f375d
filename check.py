#!/opt/venv/bin/python
"""Decides one property of /repo:  check.py --property C01 [--tier quick]
Replays a recorded failure:       check.py --replay FILE

exit 0: every obligation discharged (or, labelled so in the evidence, covered
by its bounded stand-in); exit 1: VIOLATION line; exit 2: the check itself
could not run."""
import argparse
import collections
import json
import multiprocessing
import os
import random
import re
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
for v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.path[:0] = [REPO, HERE]
warnings.simplefilter('ignore')


class Late(BaseException):
    pass


def _alarm(*a):
    raise Late()


def arm(t):
    # repeated: an exception raised inside a destructor is lost
    signal.setitimer(signal.ITIMER_REAL, t, 5.0 if t else 0)


STATE = {}


def finish(ob, r, seed, deadline):
    """decides what a failed obligation means; returns the record"""
    from pyvc import concrete
    rec = dict(name=ob.name, status=r.status, goal=r.goal, detail=str(r.detail)[:1500],
               goals=r.goals, proved=r.proved, paths=r.paths, seconds=round(r.seconds, 4),
               logpos=r.logpos, generic=r.generic, sampled=getattr(r, 'sampled', 0), concrete=0, confirmed=None)
    if r.status == 'proved':
        n = STATE['cross']
    elif r.status == 'refuted':
        n = 60
    else:
        n = 40
    hints = tuple(sorted(r.hints))
    if not ob.concrete:
        n = 0
    elif ob.conc is not None:
        n = min(n, 12)
    for k in range(n):
        if time.time() > deadline:
            break
        s = seed * 100003 + k
        m = ob.maxsize if (k % 3 != 1) else 2
        try:
            h = hints if k % 2 else ()
            c = concrete.run_concrete(ob, s, m, hints=h, beyond=r.status == 'refuted')
        except Late:
            raise
        except Exception as e:      # harness trouble, not a verdict
            rec['harness'] = ''.join(traceback.format_exception(e))[-800:]
            break
        if c != 'skip':
            rec['concrete'] += 1
        if isinstance(c, dict):
            rec['confirmed'] = dict(c, seed=s, maxsize=m, hints=h, beyond=r.status == 'refuted')
            break
    if r.status == 'refuted' and str(r.detail).startswith('raises') and not rec['confirmed'] \
            and ob.concrete:
        # an exception in the symbolic run only: the model of a library
        # function may be to blame
        rec['status'] = 'unsupported'
    return rec


def work(k):
    from pyvc import npm
    from pyvc.verify import discharge
    ob = STATE['obs'][k]
    deadline = STATE['deadline']
    out = r = None
    if time.time() > deadline:
        return k, dict(name=ob.name, status='unknown', goal=None, detail='time budget of the run',
                       goals=0, proved=0, paths=0, seconds=0, logpos=False, concrete=0,
                       confirmed=None)
    signal.signal(signal.SIGALRM, _alarm)
    lim = ob.limit or STATE['limit']
    try:
        arm(lim)
        try:
            with npm.install(*ob.mods, extra=ob.extra):
                r = discharge(ob)
        finally:
            arm(0)
        arm(max(lim, 30))
        try:
            out = finish(ob, r, STATE['seed'], deadline + 30)
        finally:
            arm(0)
    except Late:
        if out is None:
            from pyvc.verify import Outcome
            late = r is not None        # only the search for an input was late
            if not late:
                r = Outcome(ob)
                r.status, r.detail = 'unknown', 'over %d s' % lim
                r.seconds = lim
            try:
                arm(20)
                out = finish(ob, r, STATE['seed'], 0 if late else deadline + 30)
            except Late:
                out = dict(name=ob.name, status='unknown', goal=None, detail=str(r.detail)[:1500], goals=0,
                           proved=0, paths=0, seconds=lim, logpos=False, concrete=0, confirmed=None)
            finally:
                arm(0)
    return k, out


def rtc_work(k):
    from rtc.common import Violation
    name, fun = STATE['cases'][k]
    if time.time() > STATE['deadline']:
        return k, 'late', None
    signal.signal(signal.SIGALRM, _alarm)
    arm(60)
    import numpy as np
    try:
        with np.errstate(all='ignore'):
            fun()
        return k, 'ok', None
    except Violation as e:
        return k, 'fail', dict(what=e.what, info=jsonable(e.info))
    except Late:
        return k, 'late', None
    except Exception as e:
        return k, 'error', ''.join(traceback.format_exception(e))[-1500:]
    finally:
        arm(0)


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        if isinstance(x, dict):
            return {str(k): jsonable(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [jsonable(v) for v in x]
        return repr(x)


def part(a):
    f = globals()[a[0]]
    return [f(k) for k in a[1]]


def pool_run(fun, n, procs, deadline, chunk):
    """results of fun(k); None for those lost at the deadline"""
    res = [None] * n
    if not n:
        return res
    ctx = multiprocessing.get_context('fork')
    p = ctx.Pool(procs)
    try:
        parts = [(fun.__name__, list(range(i, min(n, i + chunk)))) for i in range(0, n, chunk)]
        it = p.imap_unordered(part, parts)
        for _ in parts:
            try:
                out = it.next(timeout=max(1, deadline - time.time() + 60))
            except multiprocessing.TimeoutError:
                break
            for k, *r in out:
                res[k] = r[0] if len(r) == 1 else tuple(r)
    finally:
        p.terminate()
        p.join()
    return res


def known_findings(pid):
    f = os.path.join(HERE, 'KNOWN_FINDINGS.jsonl')
    out = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d['property'] == pid and d.get('state', 'open') == 'open':
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--procs', type=int, default=8)
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import registry
    prop = registry.load(a.property)
    quick = a.tier != 'thorough'
    obs = list(prop.obligations('quick' if quick else 'thorough'))
    if a.only:
        obs = [o for o in obs if re.search(a.only, o.name)]
    gen = time.time() - t0
    names = collections.Counter(o.name for o in obs)
    budget = prop.budget if quick else prop.budget_thorough
    random.Random(seed).shuffle(obs)
    STATE.update(obs=obs, seed=seed, deadline=t0 + budget, limit=prop.limit,
                 cross=prop.cross if quick else prop.cross * 4)
    chunk = max(1, min(40, len(obs) // (a.procs * 8)))
    res = pool_run(work, len(obs), a.procs, t0 + budget, chunk)
    for k, r in enumerate(res):
        if r is None:
            res[k] = dict(name=obs[k].name, status='unknown', goal=None, detail='no answer in time',
                          goals=0, proved=0, paths=0, seconds=0, logpos=False, concrete=0,
                          confirmed=None)
    t1 = time.time()
    cases = list(prop.rtc('quick' if quick else 'thorough', seed)) if not a.only else []
    STATE.update(cases=cases, deadline=time.time() + (prop.rtc_budget if quick else prop.rtc_budget * 5))
    rres = pool_run(rtc_work, len(cases), a.procs, STATE['deadline'], max(1, min(10, len(cases) // (a.procs * 4) or 1)))
    t2 = time.time()

    # --- verdicts
    known = known_findings(a.property)
    hit = {}
    viol = []
    for o, r in zip(obs, res):
        if r['status'] == 'refuted' or r['confirmed']:
            kf = next((k for k in known if re.fullmatch(k['obligation'], o.name)), None)
            if kf is not None:
                hit[kf['id']] = kf
                r['known'] = True
                continue
            viol.append((0 if r['confirmed'] else 1, len(o.name), 'obligation', o.name, r, o))
    for (name, f), r in zip(cases, rres):
        if r is not None and r[0] == 'fail':
            kf = next((k for k in known if re.fullmatch(k['obligation'], 'rtc/' + name)), None)
            if kf is not None:
                hit[kf['id']] = kf
                continue
            viol.append((0, 0, 'rtc', name, r[1], None))
    viol.sort(key=lambda v: (v[0], 0 if v[2] == 'rtc' else 1, v[1], v[3]))
    open_ = [r for r in res if not r.get('known')]
    proved = [r for r in open_ if r['status'] == 'proved' and not r['confirmed']]
    bounded = [r for r in open_ if r['status'] in ('unknown', 'unsupported') and not r['confirmed']]
    byfn = collections.OrderedDict()
    for o, r in zip(obs, res):
        for f in o.funcs:
            d = byfn.setdefault(f, collections.Counter())
            d['known-finding' if r.get('known') else r['status']] += 1
    notes = sorted({(o.name.split('/')[0], r['detail'][:300]) for o, r in zip(obs, res)
                    if r['status'] in ('unknown', 'unsupported')})[:40]
    rc = collections.Counter(r[0] if r else 'late' for r in rres)
    ev = dict(
        property=a.property, tier='quick' if quick else 'thorough', seed=seed, level=prop.level,
        coverage=dict(
            obligations=len(open_), discharged=len(proved),
            checker_cmd='/opt/venv/bin/python check.py --property %s --tier %s' % (
                a.property, 'quick' if quick else 'thorough'),
            trusted_base=list(prop.trusted),
            functions_under_contract={f: dict(d) for f, d in sorted(byfn.items())},
            goals=sum(r['goals'] for r in open_), goals_discharged=sum(r['proved'] for r in open_),
            paths=sum(r['paths'] for r in open_),
            solver_seconds=round(sum(r['seconds'] for r in res), 2),
            back_end='pyvc (normal form over symbolic arrays; z3 %s for index conditions)' % z3v(),
            bounded_obligations=[r['name'] for r in bounded][:60],
            bounded_count=len(bounded), bounded_reasons=[list(n) for n in notes],
            excluded_known_findings=sum(1 for r in res if r.get('known')),
            proved_for_generic_scalars=[r['name'] for r in proved if r.get('generic')][:60],
            proved_for_generic_scalars_count=sum(1 for r in proved if r.get('generic')),
            positivity_of_logarithms_assumed=sum(1 for r in proved if r['logpos']),
            concrete_evaluations=sum(r['concrete'] for r in res),
            evaluations=sum(rc.values()) + sum(r['concrete'] for r in res),
            rtc_cases=dict(rc), rtc_note=prop.rtc_note,
            bounds=prop.bounds,
            samples=[r['name'] for r in res[:5]],
            generation_s=round(gen, 2), discharge_s=round(t1 - t0 - gen, 2), rtc_s=round(t2 - t1, 2)),
        assumptions=list(prop.assumptions), wall_s=round(time.time() - t0, 2),
        violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.only:
        with open(os.path.join(HERE, 'evidence', a.property + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    st = collections.Counter(r['status'] for r in res)
    print('%s %s: %d obligations (%s), %d proved, %d bounded, %d goals; concrete %d; rtc %s; %.1f s' % (
        a.property, a.tier, len(obs), dict(st), len(proved), len(bounded),
        ev['coverage']['goals'], ev['coverage']['concrete_evaluations'], dict(rc), time.time() - t0))
    if a.v:
        for f, d in byfn.items():
            print('   ', f, dict(d))
        for r in bounded[:30]:
            print('    bounded:', r['name'], r['status'], r['detail'][:300], r.get('harness', ''))
        slow = sorted(res, key=lambda r: -r['seconds'])[:5]
        print('    slowest:', [(r['name'], round(r['seconds'], 1)) for r in slow])
    for k, (name, f) in enumerate(cases):
        if rres[k] and rres[k][0] == 'error':
            print('  rtc case %s did not run: %s' % (name, rres[k][1].strip().splitlines()[-1]))
            if a.v:
                print(rres[k][1])
    for kf in hit.values():
        print('KNOWN-FINDING: property=%s %s' % (a.property, kf['what']))
    if viol:
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        for n, (c, _, kind, name, r, o) in enumerate(viol[:3]):
            path = os.path.join(d, '%s-%d.json' % (a.property, n))
            rec = dict(property=a.property, kind=kind, name=name, seed=seed, tier=a.tier, verif_seed=seed,
                       record=r if kind == 'obligation' else r)
            with open(path, 'w') as f:
                json.dump(rec, f, indent=1, default=str)
            if kind == 'obligation':
                print('  failed obligation %s: %s %s' % (name, r['goal'], r['detail'][:300]))
                if r['confirmed']:
                    print('  input: %s' % json.dumps(r['confirmed'], default=str)[:600])
            else:
                print('  run-time contract %s: %s' % (name, r['what'][:300]))
            print('VIOLATION property=%s replay=%s%s' % (
                a.property, path, ' no-failing-input-found' if c else ''))
        print('  %d failed obligations in all: %s' % (len(viol), collections.Counter(
            v[3].split('/')[0] for v in viol).most_common(8)))
        return 1
    if not obs and not cases:
        print('no obligation')
        return 2
    if obs and not proved and not a.only:
        # code that the verifier does not reach: the bounded runs decide
        print('no obligation was discharged')
        return 0 if cases or any(r['concrete'] for r in res) else 2
    return 0


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


def replay(path):
    rec = json.load(open(path))
    import registry
    from pyvc import concrete
    prop = registry.load(rec['property'])
    if rec['kind'] == 'rtc':
        from rtc.common import Violation
        for name, f in prop.rtc(rec['tier'], rec['verif_seed']):
            if name == rec['name']:
                try:
                    f()
                except Violation as e:
                    print('fails: %s %s' % (e.what, json.dumps(jsonable(e.info))[:2000]))
                    return 1
                print('holds')
                return 0
        print('no such case')
        return 2
    for tier in (rec['tier'], 'thorough'):
        for ob in prop.obligations(tier):
            if ob.name == rec['name']:
                c = rec['record'].get('confirmed')
                if c:
                    r = concrete.run_concrete(ob, c['seed'], c['maxsize'], hints=c.get('hints', ()), beyond=c.get('beyond', False))
                    print('fails: %s' % json.dumps(r, default=str)[:4000] if isinstance(r, dict) else 'holds')
                    return 1 if isinstance(r, dict) else 0
                from pyvc import npm
                from pyvc.verify import discharge
                with npm.install(*ob.mods, extra=ob.extra):
                    r = discharge(ob)
                print('obligation %s: %s %s %s' % (ob.name, r.status, r.goal, r.detail))
                return 0 if r.status == 'proved' else 1
    print('no such obligation')
    return 2


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
