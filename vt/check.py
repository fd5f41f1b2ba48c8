"""Runs the check of one property: python3-vt -m vt.check <property>.

Every unit (function under contract x algorithm x configuration) is verified from /repo's current source;
the obligations of the kinds that make up the property decide it."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from . import env

DEADLINE = {'quick': 240, 'thorough': 800}      # seconds per unit
BUDGET = {'quick': 560, 'thorough': 7200}       # seconds for all units of a check


class Timeout(BaseException):
    pass


def run_unit(u):
    """u: (module, function, args). Returns a plain dict."""
    mod, fn, args, opts = u
    from . import ir, exec as ex
    import importlib
    t0 = time.time()
    r = dict(unit='%s.%s(%s)' % (mod, fn, ', '.join(map(str, args))), mod=mod, fn=fn, args=args, status='ok', reason='', obl=[], covered=[], inlined=[], calls=[], queries=0, solver_secs=0.0, loops=[], functions=[])

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    try:
        ex.Engine.default_timeout_ms = opts['timeout_ms']
        ex.Engine.current = None
        if opts['end'] - t0 < 5:
            raise ex.Undecided('time limit of the check')
        opts['deadline'] = min(opts['deadline'], opts['end'] - t0)
        signal.alarm(int(opts['deadline']) + 30)
        m = importlib.import_module('vt.' + mod)
        e = getattr(m, fn)(*args, deadline=t0 + opts['deadline'])
        signal.alarm(0)
        collect(e, r)
    except ir.CompileError as x:
        r['status'], r['reason'] = 'compile', str(x)[:1500]
    except ir.Unsupported as x:
        r['status'], r['reason'] = 'unsupported', str(x)[:500]
    except ex.Undecided as x:
        partial(ex, r)
        r['status'], r['reason'] = 'undecided', str(x)[:500]
    except Timeout:
        partial(ex, r)
        r['status'], r['reason'] = 'undecided', 'time limit'
    except MemoryError:
        r['status'], r['reason'] = 'undecided', 'memory'
    except RecursionError:
        r['status'], r['reason'] = 'undecided', 'recursion limit'
    except Exception as x:
        r['status'], r['reason'] = 'engine', '%s: %s\n%s' % (type(x).__name__, str(x)[:300], traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
    r['secs'] = time.time() - t0
    return r


def partial(ex, r):
    """What was established before the unit was stopped."""
    signal.alarm(0)
    if ex.Engine.current is not None:
        try:
            collect(ex.Engine.current, r)
        except Exception:
            pass


def loopdep(e, o):
    if o.kind == 'frame' and 'no shared global object' in o.name:
        return False
    for c in [o.goal] + list(o.pc or []):
        if c is None:
            continue
        for n in e.syms(c):
            if n.startswith('hav') or n.startswith('loop.'):
                return True
    return False


def model_of(o):
    d = {}
    try:
        if o.model is not None and not isinstance(o.model, dict):
            for v in o.model.decls():
                if v.arity() == 0:
                    d[v.name()] = str(o.model[v])
                    if len(d) > 60:
                        break
    except Exception:
        pass
    return d


def collect(e, r):
    for o in e.obl:
        x = dict(kind=o.kind, name=o.name, fn=o.fn, line=o.line, status=o.status, secs=round(o.secs, 3), backend=o.backend)
        if o.status != 'proved':
            x['loop'] = loopdep(e, o)
            x['model'] = model_of(o)
            x['goal'] = str(o.goal)[:600]
        r['obl'].append(x)
    r['covered'] = sorted(e.covered)
    r['inlined'] = sorted(e.inlined)
    r['calls'] = sorted(e.calls)
    r['queries'] = e.queries
    r['solver_secs'] = round(e.solver_secs, 2)
    r['loops'] = [l for l in e.loopinfo]
    if not any('success' in c or 'path' in c for c in e.covered):
        r['status'], r['reason'] = 'vacuous', 'no path of the contract was reached'
    elif not any('success' in c or 'key path' in c for c in e.covered):
        r['status'], r['reason'] = 'vacuous', 'no successful path was reached'


def verify(units, tier):
    opts = dict(end=time.time() + BUDGET[tier], deadline=DEADLINE[tier], timeout_ms=20000 if tier == 'quick' else 90000)
    jobs = [(m, f, a, dict(opts, deadline=max(opts['deadline'], 420)) if f == 'convert' else opts) for m, f, a in units]
    # long ones first
    weight = {'convert': 4, 's_types': 9, 's_process': 8, 's_free': 7, 'update': 3, 'transform': 2, 'hmac': 2, 'finalize': 2}
    jobs.sort(key=lambda j: -weight.get(j[1], 1))
    ctx = mp.get_context('fork')
    n = min(8, os.cpu_count() or 2, max(1, len(jobs)))
    with ctx.Pool(n, maxtasksperchild=6) as pool:
        return pool.map(run_unit, jobs, chunksize=1)


def main():
    from . import props
    pid = sys.argv[1]
    tier = env.TIER if env.TIER in DEADLINE else 'quick'
    P = props.PROPS[pid]
    t0 = time.time()
    env.gen_headers(False)
    env.gen_headers(True)
    res = verify(P.units(tier), tier)
    sel = lambda o: P.select(o)
    total = sum(1 for r in res for o in r['obl'] if sel(o))
    proved = sum(1 for r in res for o in r['obl'] if sel(o) and o['status'] == 'proved')
    bad_units = [r for r in res if r['status'] != 'ok']
    failed = [(r, o) for r in res for o in r['obl'] if o['status'] != 'proved']
    sel_failed = [(r, o) for r, o in failed if sel(o)]
    definite = [(r, o) for r, o in sel_failed if o['status'] == 'refuted' and not o['loop']]
    known = props.known_findings(pid)
    knownhits = []
    rest = []
    for r, o in definite:
        k = next((k for k in known if k['obligation'] == o['name'] and k['unit'] == r['unit']), None)
        (knownhits if k else rest).append((r, o, k) if k else (r, o))
    definite = rest
    unknown_hits = {(id(r), id(o)) for r, o, _ in knownhits}
    open_ = [(r, o) for r, o in failed if (id(r), id(o)) not in unknown_hits]
    replay = dict(executions=0, failures=[], ran=False, note='')
    need = bool(bad_units or open_) or tier == 'thorough'
    if need:
        replay['ran'] = True
        try:
            P.replay(res, bad_units, open_, replay, tier)
        except Exception as x:
            replay['note'] += ' replay error: %s' % str(x)[:400]
    viol = bool(definite) or bool(replay['failures'])
    path = None
    if viol:
        os.makedirs(os.path.join(env.VERIF, 'replay'), exist_ok=True)
        path = os.path.join(env.VERIF, 'replay', pid + '.txt')
        with open(path, 'w') as f:
            f.write('property %s, tier %s\n\n' % (pid, tier))
            if replay['failures']:
                f.write('Failing inputs on the compiled real code (rerun one with: cd %s && python3-vt -m vt.rerun <variant> "<command>"):\n' % env.VERIF)
                for x in replay['failures']:
                    f.write('- %s\n' % x)
            f.write('\nObligations not discharged:\n')
            for r, o in (definite + [x for x in sel_failed if x not in definite])[:60]:
                f.write('- %s: [%s] %s (%s line %s): %s by %s%s\n    goal: %s\n    counterexample: %s\n' % (
                    r['unit'], o['kind'], o['name'], o['fn'], o['line'], o['status'], o['backend'], ', depends on a loop invariant' if o['loop'] else '', o['goal'], json.dumps(o['model'])))
            for r in bad_units:
                f.write('- %s: %s %s\n' % (r['unit'], r['status'], r['reason']))
    write_evidence(pid, P, tier, res, total, proved, sel_failed, bad_units, replay, time.time() - t0, viol, definite, knownhits)
    for r, o, k in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s: %d obligations, %d discharged, %d units (%d undecided), %.0f s' % (pid, total, proved, len(res), len(bad_units), time.time() - t0))
    for r in bad_units[:10]:
        print('  %s %s: %s' % (r['status'], r['unit'], r['reason'][-300:].replace('\n', ' | ')))
    for r, o in sel_failed[:10]:
        print('  not discharged (%s%s): %s: %s' % (o['status'], ', loop' if o['loop'] else '', r['unit'], o['name']))
    if replay['ran']:
        print('  replay on the compiled code: %d executions, %d failures %s' % (replay['executions'], len(replay['failures']), replay['note']))
    if viol:
        if replay['failures']:
            print('  ' + replay['failures'][0].split('\n')[0][:300])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        sys.stdout.flush()
        return 1
    if need and not replay['executions'] and sel_failed + bad_units:
        print('%s: no answer: obligations are open and nothing could be run' % pid)
        return 2
    return 0


def write_evidence(pid, P, tier, res, total, proved, sel_failed, bad_units, replay, wall, viol, definite, knownhits):
    back = {}
    for r in res:
        for o in r['obl']:
            if o['status'] == 'proved' and P.select(o):
                back[o['backend']] = back.get(o['backend'], 0) + 1
    bounded = sorted({r['unit'] for r in bad_units} | {r['unit'] for r, o in sel_failed if o['status'] != 'refuted' or o['loop']})
    kinds = {}
    for r in res:
        for o in r['obl']:
            if P.select(o):
                kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    full = not sel_failed and not bad_units
    cov = dict(obligations=total, discharged=proved, checker_cmd='cd /verif && python3-vt -m vt.check ' + pid,
               trusted_base=P.trusted,
               functions_under_contract=sorted({r['unit'] for r in res}),
               obligations_by_kind=kinds, discharged_by_backend=back,
               solver_queries=sum(r['queries'] for r in res), solver_seconds=round(sum(r['solver_secs'] for r in res), 1),
               called_through_contract=sorted({c for r in res for c in r['calls']}),
               executed_in_place=sorted({c for r in res for c in r['inlined']}),
               loops_with_invariants=[dict(unit=r['unit'], **{k: (v if not isinstance(v, (set, tuple)) else list(v)) for k, v in l.items()}) for r in res for l in r['loops']][:60],
               paths_reached=sorted({c for r in res for c in r['covered']}),
               undecided_units=[dict(unit=r['unit'], status=r['status'], reason=r['reason'][-400:]) for r in bad_units],
               not_discharged=[dict(unit=r['unit'], name=o['name'], status=o['status'], loop=o['loop']) for r, o in sel_failed][:40],
               bounded_stand_in=dict(units=bounded, executions=replay['executions'], failures=len(replay['failures']),
                                     bound=P.bound if replay['ran'] else 'not needed: every obligation was discharged'),
               explanation='All obligations discharged for all inputs.' if full else
               'Obligations listed under not_discharged/undecided_units are not proved on this tree; for those the bounded stand-in ran instead.')
    ev = dict(property=pid, tier=tier, seed=env.SEED, level='proof', coverage=cov, assumptions=P.assumptions, wall_s=round(wall, 1), violations=1 if viol else 0)
    if not full:
        ev['level'] = 'proof' if not bad_units and not sel_failed else 'other'
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
