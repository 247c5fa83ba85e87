"""Units of verification and how they are run."""
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

from . import engine, env as E, sym

UNITS = {}      # property -> [Unit]


class Unit:
    """A harness.

    sym      prove it for all inputs
    stubs    functions of contracts.py replacing callees in the proof
    cases    f(env, tier, rng) -> list of value dicts, run concretely
    complete tiers in which the cases are the whole finite domain, so that
             evaluating them decides the obligation
    samples  number of random concrete runs (quick); thorough runs 20 times
    shards   f(env, tier) -> dicts of inputs that are fixed one after the
             other in the proof (a complete case split on those inputs)
    exact    a counter-model that does not replay is reported even so
    """

    def __init__(self, prop, name, fn, **k):
        self.prop, self.name, self.fn = prop, name, fn
        self.sym = k.pop('sym', True)
        self.stubs = k.pop('stubs', ())
        self.cases = k.pop('cases', None)
        self.complete = k.pop('complete', ())
        self.samples = k.pop('samples', 400)
        self.exact = k.pop('exact', False)
        self.tl = k.pop('tl', 150)
        self.about = k.pop('about', '')
        self.bounded = k.pop('bounded', '')
        self.shards = k.pop('shards', None)
        assert not k, k


def unit(prop, name, **k):
    def deco(fn):
        UNITS.setdefault(prop, []).append(Unit(prop, name, fn, **k))
        return fn
    return deco


def trace_functions(into):
    """Record which functions of the package are executed."""
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, 'pyvc')
    except ValueError:
        return

    def start(code, off):
        fn = code.co_filename
        if '/badidatetime/' in fn and '<' not in code.co_name:
            into.add(f'{fn.rsplit("/", 1)[-1]}:{code.co_qualname}')
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


# ------------------------------------------------------------------- tasks

def task_sym(env, u, tier, shards=({},)):
    E.symbolic(env)
    fns = set()
    out = None
    try:
        for s in u.stubs:
            s(env)
        trace_functions(fns)
        end = time.time() + u.tl * (4 if tier == 'thorough' else 1)
        for fixed in shards:
            eng = engine.Engine(u.fn, env, deadline=end, fixed=fixed)
            out = merge_sym(out, eng.explore().result())
    except sym.Unsupported as e:
        out = merge_sym(out, {
            'paths': 0, 'infeasible': 0, 'obligations': 0, 'discharged': 0,
            'labels': {}, 'refuted': [], 'undecided': [str(e)], 'by': {}})
    out['stats'] = dict(engine.STATS)
    out['functions'] = sorted(fns)
    out['contracts'] = list(env.stubs)
    return out


def merge_sym(a, b):
    """The union of two results."""
    if a is None:
        return b
    for k in ('paths', 'infeasible', 'obligations', 'discharged'):
        a[k] += b[k]
    a['refuted'] = (a['refuted'] + b['refuted'])[:40]
    a['undecided'] = sorted(set(a['undecided'] + b['undecided']))[:20]
    for k, v in b['by'].items():
        a['by'][k] = a['by'].get(k, 0) + v
    for k, v in b['labels'].items():
        o = a['labels'].setdefault(k, dict.fromkeys(v, 0))
        for n in v:
            o[n] += v[n]
    if 'stats' in b and 'stats' in a:
        for k, v in b['stats'].items():
            a['stats'][k] += v
    for k in ('functions', 'contracts'):
        if k in a and k in b:
            a[k] = sorted(set(a[k]) | set(b[k]))
    return a


def run_conc(env, u, vals=None, rng=None):
    """('ok'|'skip'|'known'|'fail', ctx, label, detail)"""
    c = engine.ConcCtx(env, vals, rng)
    try:
        u.fn(c)
    except engine.Skip:
        return 'skip', c, '', ''
    except engine.Failed as e:
        return ('known' if c.known_hit else 'fail'), c, e.label, e.detail
    except RecursionError:
        raise
    except Exception as e:
        if isinstance(e, ImportError):
            raise
        return ('known' if c.known_hit else 'fail'), c, 'no-exception', (
            f'{type(e).__name__}: {str(e)[:200]} at {engine._where(e)}')
    return 'ok', c, '', ''


def task_conc(env, u, spec):
    """spec: ('cases', list) or ('random', seed, n, seconds)"""
    out = {'runs': 0, 'skip': 0, 'known': {}, 'fails': [], 'checked': 0,
           'samples': [], 'distinct': 0}
    seen = set()
    if spec[0] == 'cases':
        it = ((v, None) for v in spec[1])
        end = None
    else:
        rng = random.Random(spec[1])
        it = ((None, rng) for _ in range(spec[2]))
        end = time.time() + spec[3]
    for vals, rng in it:
        if end is not None and time.time() > end:
            break
        st, c, label, detail = run_conc(env, u, vals, rng)
        if st == 'skip':
            out['skip'] += 1
            continue
        out['runs'] += 1
        out['checked'] += c.checked
        h = hash(json.dumps(c.used, sort_keys=True, default=str))
        seen.add(h)
        if len(out['samples']) < 2:
            out['samples'].append(c.used)
        if st == 'known':
            out['known'].setdefault(c.known_hit, [0, c.used, label])[0] += 1
        elif st == 'fail':
            if len(out['fails']) < 5:
                out['fails'].append((label, c.used, detail))
            if len(out['fails']) >= 5:
                break
    out['distinct'] = len(seen)
    return out


def task_near(env, u, models, seed, seconds):
    """Run the unit on inputs near the counter-models."""
    rng = random.Random(seed)
    end = time.time() + seconds
    out = {'runs': 0, 'fails': []}
    while time.time() < end and not out['fails']:
        vals = dict(rng.choice(models))
        keys = sorted(vals)
        for _ in range(rng.randint(1, 6)):
            if not keys:
                break
            k = rng.choice(keys)
            op = rng.random()
            if op < .35:
                vals.pop(k, None)
            elif op < .8:
                same = [x for x in keys if x[1:] == k[1:] and x != k]
                if same and rng.random() < .6:
                    # all fields of one object like those of the other
                    x = rng.choice(same)
                    for a in keys:
                        b = x[0] + a[1:]
                        if a[0] == k[0] and b in vals and (
                                rng.random() < .9):
                            vals[a] = vals[b]
                elif same:
                    x = rng.choice(same)
                    if x in vals:
                        vals[k] = vals[x]
                else:
                    vals.pop(k, None)
            elif isinstance(vals.get(k), (int, float)):
                vals[k] += rng.choice((-1, 1))
        st, c, label, detail = run_conc(env, u, vals, rng)
        out['runs'] += st != 'skip'
        if st == 'fail':
            out['fails'].append((label, c.used, detail))
    return out


def _child(conn, f, args):
    try:
        r = ('ok', f(*args))
    except BaseException as e:     # reported to the parent
        r = ('error', f'{type(e).__name__}: {e}\n' + traceback.format_exc())
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def run_tasks(tasks, workers=8):
    """tasks: list of (key, f, args, timeout); yields (key, status, result).
    Every task runs in a forked child of its own."""
    ctx = mp.get_context('fork')
    todo = list(tasks)[::-1]
    live = {}
    while todo or live:
        while todo and len(live) < workers:
            key, f, args, tl = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, f, args))
            p.start()
            b.close()
            live[a] = (key, p, time.time() + tl)
        ready = mp.connection.wait(list(live), timeout=1)
        for a in ready:
            key, p, _ = live.pop(a)
            try:
                st, r = a.recv()
            except (EOFError, OSError):
                st, r = 'error', 'the worker died'
            a.close()
            p.join()
            yield key, st, r
        now = time.time()
        for a in list(live):
            key, p, end = live[a]
            if now > end:
                live.pop(a)
                p.kill()
                p.join()
                a.close()
                yield key, 'error', 'timeout'
