"""Check driver: runs a property's units in parallel, collects obligations, classifies failures, looks for concrete
witnesses, writes the evidence file, prints the verdict."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import z3

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

from prog import Program, CompileError            # noqa: E402
from sym import Engine, State, Unsupported, Budget, Ptr, NULL, Undef, bv, conc   # noqa: E402
import libc                                        # noqa: E402

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class Unit:
    """One function (or lemma) under contract: fn(ctx) generates and discharges its obligations."""

    def __init__(self, name, fn, functions=(), sources=(), contract='', optional=False, budget=240):
        self.name = name
        self.fn = fn
        self.functions = list(functions)
        self.sources = list(sources)
        self.contract = contract
        self.optional = optional
        self.budget = budget


class Ctx:
    """What a unit sees."""

    def __init__(self, prog, unit, bounded=0, deadline=None, scale=1):
        self.scale = scale
        self.prog = prog
        self.unit = unit
        self.bounded = bounded
        self.engines = []
        self.covers = []
        self.lemmas = []
        self.deadline = deadline
        self.notes = []

    def engine(self, **kw):
        e = Engine(self.prog, **kw)
        libc.std(e)
        e.bounded = self.bounded
        e.deadline = self.deadline
        e.scale = self.scale
        self.engines.append(e)
        return e

    def fn(self, name, src=None):
        k = self.prog.find(name, src)
        if k is None:
            raise Unsupported('function %s not found in the current tree' % name)
        return k

    def cover(self, name, eng, st, cond=None):
        """Vacuity check: this state must be reachable (a failing cover is an error of the check)."""
        r, m = eng._check(st.pc + ([cond] if cond is not None else []))
        self.covers.append((name, r == z3.sat))
        return m

    def cover_any(self, name, ok):
        self.covers.append((name, bool(ok)))


def enum(prog, n):
    return prog.enum(n)


def show_model(m, limit=60):
    if m is None:
        return []
    out = []
    for d in m.decls():
        try:
            s = '%s = %s' % (d.name(), str(m[d])[:200])
        except Exception:
            continue
        out.append(s)
        if len(out) >= limit:
            break
    return sorted(out)


def run_unit(args):
    prog, unit, bounded, budget = args[:4]
    t = time.time()
    ctx = Ctx(prog, unit, bounded, time.time() + budget, *args[4:])
    res = {'unit': unit.name, 'functions': unit.functions, 'contract': unit.contract, 'error': None, 'failures': [],
           'obligations': 0, 'discharged': 0, 'covers': [], 'loops': [], 'solver_s': 0.0, 'queries': 0, 'kinds': {},
           'backends': {}, 'contracts_used': [], 'inlined': [], 'bounded': bounded, 'bounded_hit': False, 'inv': [],
           'obls': [], 'notes': [], 'weak': []}
    try:
        unit.fn(ctx)
    except Unsupported as e:
        res['error'] = 'unsupported: %s' % e
    except Budget as e:
        res['error'] = 'budget: %s' % e
    except KeyError as e:
        res['error'] = 'extraction: %r' % (e,) + ' ' + ''.join(traceback.format_exc()[-600:])
    except z3.Z3Exception as e:
        res['error'] = 'solver: %s' % e + ''.join(traceback.format_exc()[-800:])
    except Exception as e:
        res['error'] = 'engine: %r\n%s' % (e, traceback.format_exc()[-1500:])
    names = {}
    for e in ctx.engines:
        for o in e.obls:
            res['obligations'] += 1
            res['discharged'] += bool(o.ok)
            res['kinds'][o.kind] = res['kinds'].get(o.kind, 0) + 1
            if o.ok:
                res['backends'][o.backend] = res['backends'].get(o.backend, 0) + 1
            k = '%s: %s' % (o.where, o.name)
            names[k] = names.get(k, True) and o.ok
        for f in e.failures:
            res['failures'].append({'obligation': f.ob, 'kind': f.kind, 'where': f.where, 'definite': f.definite,
                                    'note': f.note, 'trace': f.trace, 'model': show_model(f.model)})
        res['weak'] += e.weak
        res['solver_s'] += e.solver_time
        res['queries'] += e.nqueries
        res['loops'] += [list(x) for x in e.loopinfo]
        res['inv'] += [[n, i] for n, i in e.invlog]
        res['contracts_used'] += [prog.pretty(k) for k in e.used_contracts]
        res['inlined'] += [prog.pretty(k) for k in e.inlined]
        res['bounded_hit'] = res['bounded_hit'] or e.bounded_hit
    res['obls'] = sorted('%s%s' % ('' if v else 'FAILED ', k) for k, v in names.items())
    res['covers'] = ctx.covers
    res['contracts_used'] = sorted(set(res['contracts_used']))
    res['inlined'] = sorted(set(res['inlined']))
    res['notes'] = ctx.notes
    res['wall_s'] = time.time() - t
    return res


_PROG = None
_UNITS = None


def undecided(r):
    """Every failure of this unit may be due to a solver limit (no countermodel, or an invariant lost to a limit)."""
    return bool(r['failures']) and not any(f['definite'] for f in r['failures']) and \
        (bool(r.get('weak')) or all('solver: unknown' in f['note'] for f in r['failures']))


def _worker(i, bounded, budget, q):
    try:
        r = run_unit((_PROG, _UNITS[i], bounded, budget))
        if not bounded and undecided(r):
            r = run_unit((_PROG, _UNITS[i], bounded, budget * 1.4, 4))
    except BaseException as e:   # noqa
        r = {'unit': _UNITS[i].name, 'error': 'crash: %r' % (e,), 'failures': [], 'obligations': 0, 'discharged': 0,
             'covers': [], 'loops': [], 'solver_s': 0, 'queries': 0, 'kinds': {}, 'backends': {},
             'contracts_used': [], 'inlined': [], 'bounded': bounded, 'bounded_hit': False, 'inv': [], 'obls': [],
             'functions': _UNITS[i].functions, 'contract': '', 'notes': [], 'wall_s': 0}
    q.put((i, r))


def run_units(prog, units, bounded=0, budget=None, jobs=8):
    """Run the units in forked workers, jobs at a time, with a hard wall-clock limit each."""
    global _PROG, _UNITS
    _PROG, _UNITS = prog, units
    ctxm = mp.get_context('fork')
    q = ctxm.Queue()
    results = [None] * len(units)
    pend = list(range(len(units)))
    live = {}
    while pend or live:
        while pend and len(live) < jobs:
            i = pend.pop(0)
            b = budget or units[i].budget
            p = ctxm.Process(target=_worker, args=(i, bounded, b, q))
            p.start()
            live[i] = (p, time.time() + b * 2.5 + 30)
        try:
            i, r = q.get(timeout=0.5)
            results[i] = r
            p, _ = live.pop(i)
            p.join(5)
            if p.is_alive():
                p.kill()
            continue
        except Exception:
            pass
        for i in list(live):
            p, dl = live[i]
            if time.time() > dl or not p.is_alive():
                if not p.is_alive():
                    # result may still be in the queue
                    try:
                        j, r = q.get(timeout=1.0)
                        results[j] = r
                        pj, _ = live.pop(j)
                        pj.join(1)
                        if j == i:
                            continue
                        if i not in live:
                            continue
                        continue
                    except Exception:
                        pass
                p.kill()
                live.pop(i)
                results[i] = {'unit': units[i].name, 'error': 'budget: killed', 'failures': [], 'obligations': 0,
                              'discharged': 0, 'covers': [], 'loops': [], 'solver_s': 0, 'queries': 0, 'kinds': {},
                              'backends': {}, 'contracts_used': [], 'inlined': [], 'bounded': bounded,
                              'bounded_hit': False, 'inv': [], 'obls': [], 'functions': units[i].functions,
                              'contract': '', 'notes': [], 'wall_s': 0}
    return results


class Property:
    def __init__(self, pid, module):
        self.pid = pid
        self.m = module


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'known']


def matches_known(f, known):
    for k in known:
        if k.get('unit') in (None, f['unit']) and k['obligation'] == f['obligation'] and k.get('where') in (None, f['where']):
            return k
    return None


def main(pid):
    t0 = time.time()
    mod = importlib.import_module('checks.' + pid)
    print('%s: %s [%s]' % (pid, mod.TITLE, TIER))
    sys.stdout.flush()
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    evf = os.path.join(evdir, pid + '.json')
    try:
        prog = Program(mod.SOURCES)
    except CompileError as e:
        print('error: %s' % e)
        return 2
    tc = time.time() - t0
    units = mod.units(prog)
    results = run_units(prog, units)
    return conclude(pid, mod, prog, units, results, t0, tc, evf)


def conclude(pid, mod, prog, units, results, t0, tc, evf):
    known = known_findings(pid)
    failing = []
    errors = []
    bounded_units = []
    knownhits = []
    covers_bad = []
    for u, r in zip(units, results):
        if undecided(r) and not r['error']:
            r['error'] = 'solver limit: ' + '; '.join([f['obligation'] for f in r['failures'][:3]])
            r['failures'] = []
        for f in r['failures']:
            f['unit'] = r['unit']
            k = matches_known(f, known)
            if k:
                knownhits.append((k, f))
            else:
                failing.append(f)
        if r['error']:
            errors.append((u, r))
        if not r['error'] and not r['failures']:
            for n, ok in r['covers']:
                if not ok:
                    covers_bad.append((r['unit'], n))
        if not r['error'] and not r['failures'] and r['obligations'] == 0:
            covers_bad.append((r['unit'], 'no obligations generated'))
    status = 0
    viol = None
    witness_note = None
    wit = getattr(mod, 'witness', None)
    explain = []
    # a unit whose function could not be brought within the verifier's reach on this tree: bounded stand-in
    if errors:
        for u, r in errors:
            print('  undecided: %s: %s' % (u.name, r['error'].split('\n')[0][:300]))
            if os.environ.get('NMV_DEBUG'):
                print(r['error'])
    need_witness = bool(failing or errors)
    w = None
    bres = []
    if need_witness:
        # concrete search on the real code, then bounded symbolic execution (definite counterexamples only)
        if wit:
            try:
                w = wit(prog, failing, TIER, SEED)
            except Exception as e:
                print('  witness search error: %r' % (e,))
                if os.environ.get('NMV_DEBUG'):
                    traceback.print_exc()
                w = None
        bunits = [u for u, r in zip(units, results) if r['error'] or any(f['unit'] == u.name and not f['definite'] for f in failing)]
        if bunits and w is None and not any(f['definite'] for f in failing):
            for kb in (2,):
                bres = run_units(prog, bunits, bounded=kb, budget=100)
                for r in bres:
                    for f in r['failures']:
                        f['unit'] = r['unit']
                        f['bounded'] = kb
                        if f['definite'] and not matches_known(f, known):
                            failing.append(f)
    seen = set()
    uniq = []
    for f in failing:
        k = (f['unit'], f['obligation'], f['where'])
        if k not in seen:
            seen.add(k)
            uniq.append(f)
    uniq.sort(key=lambda f: not f['definite'])
    replay = None
    if w or uniq:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        replay = os.path.join(rd, '%s.json' % pid)
        with open(replay, 'w') as fh:
            json.dump({'property': pid, 'failed_obligations': uniq[:20], 'witness': w,
                       'verifier': 'nmv over LLVM IR of the current tree, z3 %s' % z3.get_version_string()}, fh, indent=1)
        status = 1
        for f in uniq[:12]:
            print('  failed obligation: [%s] %s (%s) at %s%s' % (f['unit'], f['obligation'], f['kind'], f['where'],
                  '' if f['definite'] else ' [through a cut loop]'))
            if os.environ.get('NMV_DEBUG'):
                for x in f['trace']:
                    print('      ', x)
                for x in f['model'][:40]:
                    print('         ', x)
        if w:
            print('  concrete failing input on the real code: %s' % (json.dumps(w)[:600]))
        print('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if w else ' no-failing-input-found'))
    elif errors:
        # undecided deductively; the bounded stand-in and the concrete search found nothing
        okb = [r for r in bres if not r['error']]
        usable = len(okb) == len(errors) or (wit is not None)
        if not usable:
            print('  error: no verdict for %s' % ', '.join(u.name for u, _ in errors))
            status = 2
        else:
            print('  bounded stand-in only for: %s' % ', '.join(u.name for u, _ in errors))
    if covers_bad and status == 0:
        for u, n in covers_bad:
            print('  error: vacuous: %s: %s' % (u, n))
        status = 2
    for k, f in knownhits:
        pass
    shown = set()
    for k, f in knownhits:
        if k['what'] not in shown:
            shown.add(k['what'])
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    write_evidence(pid, mod, prog, units, results, errors, uniq, w, t0, tc, evf, bres, knownhits)
    n = sum(r['obligations'] for r in results)
    d = sum(r['discharged'] for r in results)
    print('  %d/%d obligations discharged in %d units, %.1fs solver, %.1fs wall' % (
        d, n, len(units), sum(r['solver_s'] for r in results), time.time() - t0))
    return status


def write_evidence(pid, mod, prog, units, results, errors, uniq, w, t0, tc, evf, bres, knownhits):
    ob = sum(r['obligations'] for r in results)
    di = sum(r['discharged'] for r in results)
    back = {}
    kinds = {}
    for r in results:
        for k, v in r['backends'].items():
            back[k] = back.get(k, 0) + v
        for k, v in r['kinds'].items():
            kinds[k] = kinds.get(k, 0) + v
    used = sorted({c for r in results for c in r['contracts_used']})
    inl = sorted({c for r in results for c in r['inlined']})
    trusted = ['clang 18 -O0 IR generation and opt sroa/mem2reg/simplifycfg/lowerswitch/loop-simplify',
               'the VC generator in /verif/nmv (memory model: disjoint objects, exact bit-vector arithmetic)',
               'z3 %s' % z3.get_version_string()] + ['assumed contract: ' + c for c in used]
    cov = {
        'obligations': ob, 'discharged': di,
        'checker_cmd': 'python3-vt /verif/nmv/run.py %s' % pid,
        'trusted_base': trusted,
        'back_ends': back, 'obligation_kinds': kinds,
        'solver_s': round(sum(r['solver_s'] for r in results), 2),
        'queries': sum(r['queries'] for r in results),
        'functions_under_contract': sorted({f for u in units for f in u.functions}),
        'functions_inlined_into_their_callers': inl,
        'units': [{'unit': r['unit'], 'contract': u.contract, 'functions': u.functions, 'obligations': r['obligations'],
                   'discharged': r['discharged'], 'solver_s': round(r['solver_s'], 2), 'error': r['error'],
                   'loops': [list(x) for x in {tuple(l) for l in map(tuple, r['loops'])}][:20],
                   'covers': r['covers'], 'notes': r['notes']} for u, r in zip(units, results)],
        'invariants': [[n, i] for r in results for n, i in r['inv']][:60],
        'sample_obligations': [o for r in results for o in r['obls'][:8]][:80],
        'bounded_stand_ins': [u.name for u, _ in errors],
        'failed': uniq[:20], 'witness': w,
        'known_findings': [k['what'] for k, _ in knownhits],
        'compile_s': round(tc, 2),
    }
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': getattr(mod, 'LEVEL', 'proof'), 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + GENERAL_ASSUMPTIONS,
          'wall_s': round(time.time() - t0, 2), 'violations': len(uniq) + (1 if w else 0)}
    with open(evf, 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)


GENERAL_ASSUMPTIONS = [
    'external functions (libc, talloc, glib, gmime, Xapian, zlib) behave as their contracts in /verif/nmv state',
    'machine integers are exact bit-vectors (wrap-around included); floating point is opaque',
    'pointers into distinct objects never alias; no data races (single thread)',
    'talloc/glib allocation succeeds unless a unit says it injects allocation failure',
]
