"""check <property>: decide one property on /repo's working tree."""
import importlib
import json
import os
import pkgutil
import random
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ['PYTHONHASHSEED'] = '0'

from . import core, env as E, engine  # noqa: E402

KNOWN = json.load(open(os.path.join(VERIF, 'known_findings.json')))['known']
try:
    BASELINE = json.load(open(os.path.join(VERIF, 'baseline.json')))
except OSError:
    BASELINE = {}

TRUSTED = [
    'CPython 3.12 executes the code under verification on symbolic values '
    '(no translation of the source); the interpreter, the standard library '
    'and the classes of pyvc/sym.py that stand for int, float, bool, str, '
    'bytes and timedelta are trusted',
    'z3 5.3 (and cvc5 1.1 where z3 gives no answer)',
    'floats: every operation returns a real within half an ulp (of the '
    'largest magnitude the operand ranges allow) of the exact result; '
    'overflow, nan and infinities are outside of the preconditions',
]


def load_units():
    from . import units
    for m in pkgutil.iter_modules(units.__path__):
        importlib.import_module(f'{units.__name__}.{m.name}')


def shorten(x, n=600):
    s = json.dumps(x, default=str, ensure_ascii=False)
    return s if len(s) <= n else s[:n] + '...'


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    replay = None
    mode = 'all'
    for a in argv[1:]:
        if a.startswith('--unit='):
            only = a[7:]
        elif a.startswith('--replay='):
            replay = a[9:]
        elif a == '--sym':
            mode = 'sym'
        elif a == '--conc':
            mode = 'conc'
        elif a in ('--thorough', '--tier=thorough'):
            tier = 'thorough'
    t0 = time.time()
    env = E.load()
    load_units()
    if replay:
        return do_replay(env, replay)
    units = [u for u in core.UNITS.get(prop, ())
             if only is None or u.name == only]
    if not units:
        print(f'no units for {prop}')
        return 2
    byname = {u.name: u for u in units}

    tasks = []
    caseinfo = {}
    nshards = {}
    axioms_ok = not E.table_axioms(env.Y)[1]
    for u in units:
        if u.sym and mode != 'conc' and axioms_ok:
            tl = u.tl * (4 if tier == 'thorough' else 1)
            sh = u.shards(env, tier) if u.shards else [{}]
            k = min(len(sh), 16)
            nshards[u.name] = k
            for i in range(k):
                tasks.append(((u.name, 'sym'), core.task_sym,
                              (env, u, tier, sh[i::k]), tl + 90))
    for u in units:
        if mode == 'sym':
            continue
        rng = random.Random(f'{seed} {prop} {u.name}')
        if u.cases:
            cs = list(u.cases(env, tier, rng))
            caseinfo[u.name] = len(cs)
            k = max(1, min(64, len(cs) // 50 + 1))
            for i in range(k):
                tasks.append(((u.name, 'cases'), core.task_conc,
                              (env, u, ('cases', cs[i::k])), 3000))
        n = u.samples * (20 if tier == 'thorough' else 1)
        if n:
            k = max(1, min(8, n // 50))
            for i in range(k):
                tasks.append(((u.name, 'random'), core.task_conc, (
                    env, u, ('random', f'{seed} {prop} {u.name} {i}',
                             -(-n // k),
                             1500 if tier == 'thorough' else 40)), 3000))
    if mode != 'sym' and only is None:
        for k in KNOWN:
            if prop in k['witness']:
                n, v = k['witness'][prop]
                if n in byname:
                    tasks.append(((n, 'witness'), core.task_conc,
                                  (env, byname[n], ('cases', [v])), 600))
    sym = {}
    conc = {}
    errors = []
    for key, st, r in core.run_tasks(tasks):
        name, kind = key
        if st != 'ok':
            errors.append((name, kind, r))
            if os.environ.get('PYVC_DEBUG'):
                print(key, r)
            continue
        if kind == 'sym':
            nshards[name] -= 1
            sym[name] = core.merge_sym(sym.get(name), r)
        else:
            c = conc.setdefault((name, kind), {
                'runs': 0, 'skip': 0, 'known': {}, 'fails': [], 'checked': 0,
                'samples': [], 'distinct': 0})
            for f in ('runs', 'skip', 'checked', 'distinct'):
                c[f] += r[f]
            c['fails'] += r['fails']
            c['samples'] = (c['samples'] + r['samples'])[:3]
            for k, v in r['known'].items():
                c['known'].setdefault(k, [0, v[1], v[2]])[0] += v[0]

    for name, k in nshards.items():
        if k and name in sym:
            sym[name]['undecided'].append(f'{k} parts did not finish')

    # counter-models of the solver, replayed on the unmodified code
    violations = []        # (unit, label, vals, detail, solver)
    unreplayed = []
    for name, r in sym.items():
        u = byname[name]
        todo = []
        for label, vals, exact in r['refuted']:
            todo.append(((name, label, exact, vals), core.task_conc,
                         (env, u, ('cases', [vals])), 120))
        for key, st, c in core.run_tasks(todo):
            name, label, exact, vals = key
            if st == 'ok' and c['fails']:
                l2, used, detail = c['fails'][0]
                violations.append((name, l2, used, detail, 'counter-model of '
                                   f'obligation {label}, replayed'))
            elif st == 'ok' and c['known']:
                pass
            else:
                unreplayed.append((name, label, exact, vals))
    for (name, kind), c in conc.items():
        for label, used, detail in c['fails']:
            violations.append((name, label, used, detail, kind))
    if unreplayed and not violations:
        todo = []
        for name in sorted({x[0] for x in unreplayed}):
            models = [x[3] for x in unreplayed if x[0] == name]
            for i in range(4):
                todo.append(((name, i), core.task_near, (
                    env, byname[name], models, f'{seed} {i}',
                    60 if tier == 'thorough' else 15), 600))
        for key, st, c in core.run_tasks(todo):
            if st == 'ok' and c['fails']:
                label, used, detail = c['fails'][0]
                violations.append((key[0], label, used, detail,
                                   'found near a counter-model'))

    # known findings
    listed = {k['id']: k for k in KNOWN if prop in k['properties']}
    hits = {}
    for (name, kind), c in conc.items():
        for k, (n, used, label) in c['known'].items():
            if k in listed:
                h = hits.setdefault(k, [0, used])
                h[0] += n
            else:
                violations.append((name, label, used,
                                   f'known finding {k} is not listed', kind))
    for k in sorted(listed):
        if k in hits:
            print(f'KNOWN-FINDING: property={prop} {k}: '
                  f'{listed[k]["what"]}')

    # status of every unit
    base = BASELINE.get(prop, {})
    status = {}
    obligations = discharged = 0
    failed_obl = []
    for u in units:
        parts = []
        if u.sym and mode != 'conc':
            r = sym.get(u.name)
            if r is None:
                parts.append('error' if axioms_ok else 'undecided')
                obligations += 1
            else:
                n = r['obligations']
                obligations += n
                discharged += r['discharged']
                if r['undecided'] or not n or n != r['discharged']:
                    obligations += 1 if r['undecided'] or not n else 0
                    parts.append('undecided' if not r['refuted']
                                 else 'refuted')
                else:
                    parts.append('proved')
        if (u.name, 'cases') in conc:
            c = conc[u.name, 'cases']
            if tier in u.complete:
                obligations += 1
                done = c['runs'] + c['skip'] == caseinfo[u.name]
                if done and not c['fails'] and c['runs']:
                    discharged += 1
                    parts.append('enumerated')
                else:
                    parts.append('not enumerated')
            else:
                parts.append('bounded')
        status[u.name] = '+'.join(parts) or 'bounded'
    for name, label, exact, vals in unreplayed:
        u = byname[name]
        was = base.get(name, '')
        if u.exact and exact and 'proved' in was:
            failed_obl.append((name, label, vals))

    wall = time.time() - t0
    rc = 0
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    if violations:
        name, label, used, detail, how = violations[0]
        path = os.path.join(rdir, f'{prop}-{name}.json')
        json.dump({'property': prop, 'unit': name, 'obligation': label,
                   'values': used, 'detail': detail, 'how': how,
                   'more': [v[:4] for v in violations[1:10]],
                   'run': f'/verif/check {prop} --replay={path}'},
                  open(path, 'w'), indent=1, default=str)
        print(f'  {name}: {label} fails for {shorten(used)} {detail} ({how})')
        print(f'VIOLATION property={prop} replay={path}')
        rc = 1
    elif failed_obl:
        name, label, vals = failed_obl[0]
        path = os.path.join(rdir, f'{prop}-{name}.json')
        json.dump({'property': prop, 'unit': name, 'obligation': label,
                   'solver_model': vals, 'verifier': sym[name]},
                  open(path, 'w'), indent=1, default=str)
        print(f'VIOLATION property={prop} replay={path} '
              'no-failing-input-found')
        rc = 1
    runs = sum(c['runs'] for c in conc.values())
    if not violations and runs == 0 and not discharged and mode == 'all':
        print(f'nothing was checked for {prop}: {errors}')
        return 2

    fns, contracts = set(), set()
    solver_s = {'z3': 0.0, 'cvc5': 0.0}
    by = {}
    for name, r in sym.items():
        if 'proved' in status[name]:
            fns |= set(r['functions'])
        contracts |= set(r['contracts'])
        solver_s['z3'] += r['stats']['z3_s']
        solver_s['cvc5'] += r['stats']['cvc5_s']
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
    enum = sum('enumerated' in s.split('+') for s in status.values())
    if enum:
        by['evaluation over the complete finite domain'] = enum
    samples = []
    for (name, kind), c in conc.items():
        for s in c['samples'][:1]:
            samples.append({'unit': name, 'by': kind, 'input': s})
    und = {n: r['undecided'] for n, r in sym.items() if r['undecided']}
    for n, k, e in errors:
        und.setdefault(n, []).append(f'{k}: {str(e)[:300]}')
    man = os.path.join(VERIF, 'MANIFEST.json')
    level = 'proof'
    try:
        for c in json.load(open(man))['checks']:
            if c['property'] == prop:
                level = c['level']
    except (OSError, KeyError, ValueError):
        pass
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': obligations, 'discharged': discharged,
            'checker_cmd': f'/verif/check {prop}',
            'trusted_base': TRUSTED,
            'explanation':
                'obligations are the postconditions of the units on every '
                'path of the real functions (symbolic execution by CPython, '
                'discharged by the solver), and enumerations of complete '
                'finite domains; units listed as bounded are run on the '
                'inputs counted as evaluations only and are not proved',
            'units': {u.name: {'status': status[u.name], 'about': u.about,
                               'bounded': u.bounded,
                               'paths': sym.get(u.name, {}).get('paths'),
                               'obligations': {
                                   k: f"{v['discharged']}/{v['n']}"
                                   for k, v in sym.get(u.name, {}).get(
                                       'labels', {}).items()}}
                      for u in units},
            'discharged_by': by,
            'solver_seconds': {k: round(v, 2) for k, v in solver_s.items()},
            'functions_under_contract': sorted(fns),
            'contracts_used_at_calls': sorted(contracts),
            'undecided': und,
            'evaluations': runs,
            'distinct_nontrivial': sum(c['distinct'] for c in conc.values()),
            'rule': 'boundary-biased random inputs (seeded) and enumerated '
                    'cases that satisfy the preconditions; distinct by '
                    'their input values',
            'samples': samples[:12] or [{'unit': n, 'paths': r['paths']}
                                        for n, r in sym.items()][:5],
            'postconditions_evaluated': sum(c['checked']
                                            for c in conc.values()),
        },
        'assumptions': sorted({a for u in units for a in (
            ([u.bounded] if u.bounded else []))}),
        'wall_s': round(wall, 2),
        'violations': len(violations) + len(failed_obl),
    }
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w'),
              indent=1, default=str, ensure_ascii=False)
    if os.environ.get('PYVC_BASELINE'):
        BASELINE[prop] = status
        json.dump(BASELINE, open(os.path.join(VERIF, 'baseline.json'), 'w'),
                  indent=1, sort_keys=True)
    print(f'{prop}: {discharged}/{obligations} obligations discharged, '
          f'{runs} concrete runs, {wall:.1f} s; ' + ', '.join(
              f'{n}: {s}' for n, s in status.items()))
    if os.environ.get('PYVC_DEBUG'):
        for n, x in und.items():
            print('  undecided', n, x[:6])
        for x in unreplayed[:8]:
            print('  unreplayed', x)
        for n, r in sym.items():
            print('  ', n, {k: (v['discharged'], v['n'], v['s'])
                            for k, v in r['labels'].items()},
                  'paths', r['paths'], 'z3', round(r['stats']['z3_s'], 1))
        for k, c in conc.items():
            print('  ', k, c['runs'], 'runs', c['skip'], 'skipped',
                  {a: b[0] for a, b in c['known'].items()})
        for v in violations[:6]:
            print('  violation', v)
    return rc


def do_replay(env, path):
    d = json.load(open(path))
    u = [u for u in core.UNITS[d['property']] if u.name == d['unit']][0]
    st, c, label, detail = core.run_conc(
        env, u, d.get('values') or d.get('solver_model'))
    print(st, label, detail, c.used)
    return 1 if st == 'fail' else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
