"""Explore one message of a contract symbolically and decide the property conditions of its outcomes."""
import json
import os
import random
import sys
import time
import traceback
import sym
from sym import *
from spec import *
import core
import replay
import store


def module(name):
    import importlib
    return importlib.import_module('props_' + name)


class Pseudo(Out):
    """an aborted (panicking) path, which has a state but no result"""

    def __init__(self, cx, a, k):
        self.cx, self.en, self.k = cx, cx.en, k
        pc, self.why, tabs, misc = a
        self.st = st = core.State()
        st.pc, st.tabs, st.misc = pc, tabs, misc
        self.ok = False
        self._msgs = []


class Result:
    def __init__(self):
        self.outs = self.queries = self.conds = 0
        self.viol = []          # (label, model, outcome, constraints, status)
        self.unknown = []


def decide(base, cs, timeout, first=False):
    """'unsat', ('sat', exact model) or 'unknown': a ladder of attempts, with and without the exact definitions of the
    nonlinear terms (leaving them out only weakens the premises, so 'unsat' stands)"""
    over = False
    ladder = ((False, 4000, 0), (True, 6000, 0), (False, 8000, 1), (True, 12000, 1))
    if not first:
        ladder += ((True, 20000, 2), (False, 20000, 2), (True, timeout, 3), (False, timeout, 3))
    for exact, t, seed in ladder:
        if over and not exact:
            continue
        r, m = sym.solve(base + cs, exact=exact, timeout=min(t, timeout), seed=seed)
        if r == 'unsat' or (r == 'sat' and exact):
            return r, m
        if r == 'sat':
            over = True          # only the exact definitions can exclude this
    return 'unknown', None


def check_outcome(cx, o, fn, res, timeout, status='ok'):
    def premises():
        if status == 'ok':
            return list(o.st.pc) + [o.ok] + cx.contract.facts(cx, o)
        return list(o.st.pc) + ([Not(o.ok)] if status == 'err' else []) + cx.funds_assume()
    base = premises()
    if any(b is False for b in base):
        return
    conds = []
    for lab, c in fn(cx, o):
        res.conds += 1
        if c is True:
            continue
        conds.append((lab, c))
    if not conds:
        return
    base = premises()            # more facts are known about rows touched by the conditions
    bad = Or(*[Not(c) for _, c in conds])
    if bad is False:
        return
    r, m = decide(base, [bad], timeout, len(conds) > 1)
    res.queries += 1
    if r == 'unsat':
        return
    if r == 'unknown':
        for lab, c in conds:                 # one condition at a time
            r1, m1 = decide(base, [Not(c)], timeout)
            res.queries += 1
            if r1 == 'sat':
                res.viol.append((lab, m1, o, base + [Not(c)], status))
            elif r1 == 'unknown':
                res.unknown.append((lab, o.k))
        return
    for lab, c in conds:
        if c is False or not z3.is_true(m.eval(c, model_completion=True)):
            res.viol.append((lab, m, o, base + [Not(c)], status))
            return
    res.viol.append(('?', m, o, base + [bad], status))


# ------------------------------------------------------------------------------------------------ replay
def kind(cx):
    return cx.entryname.endswith('query::query')


def run_case(cx, nat, o, status, cs, model=None, timeout=20000):
    """-> (case, expected, observed, difference or None); raises NoReplay"""
    cs = [c for c in cs if c is not True]
    if status == 'ok':
        cs = cs + [c for c in cx.contract.facts(cx, o) if c is not True]
    case, exp, m = replay.Case(cx, o, status).build(cs, model=model, timeout=timeout)
    got = nat.run(case)
    return case, exp, got, replay.compare(exp, got, kind(cx))


def readable(case):
    c = dict(case)
    c['storage'] = [[repr(bytes.fromhex(k))[2:-1], bytes.fromhex(v).decode('latin1')] for k, v in case['storage']]
    return c


def reproduce(cx, nat, res, deadline):
    """replay counterexamples until one is confirmed by the native contract"""
    tried = []
    for lab, m, o, cs, status in res.viol:
        for att in range(3):
            if time.time() > deadline and tried:
                return None, tried
            try:
                if att:
                    r, m = sym.solve(cs, exact=True, timeout=60000, seed=att)
                    if r != 'sat':
                        continue
                case, exp, got, d = run_case(cx, nat, o, status, cs, m)
            except replay.NoReplay as x:
                tried.append(f'{lab}: {x}')
                continue
            if d is None:
                return dict(label=lab, outcome=o.k, status=status, case=case, readable=readable(case), expected=tojson(exp), observed=got), tried
            tried.append(f'{lab}: encoding and contract differ: {d}')
    return None, tried


def tojson(x):
    if isinstance(x, dict):
        return {(repr(k) if isinstance(k, bytes) else str(k)): tojson(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [tojson(v) for v in x]
    if isinstance(x, bytes):
        return repr(x)
    return x


# ------------------------------------------------------------------------------------------------ relational gate check
def gate_check(cx, pseudo, field, query, res, nat, deadline, timeout):
    """no rejection is caused by an answer whose time `field` has been reached: with the time cleared and everything else
    equal the message would have been rejected as well"""
    found = None
    okp = []
    for o in cx.outs:
        if o.ok is not False:
            okp.append(o)
    rejected = [('err', o) for o in cx.outs if o.ok is not True] + [('abort', o) for o in pseudo]
    mir = {}

    def mirrors(key, subs):
        """conditions of the rejecting paths when the time is cleared"""
        r = mir.get(key)
        if r is None:
            r = mir[key] = []
            for status, o in rejected:
                ids = set()
                for c in list(o.pc) + ([Not(o.ok)] if status == 'err' else []):
                    if is_sym(c) and varsof(c) & set(key):
                        c = keep(z3.simplify(z3.substitute(c, *subs)))
                        c = True if z3.is_true(c) else False if z3.is_false(c) else c
                    if c is False:
                        break
                    if c is not True:
                        ids.add(c.get_id())
                else:
                    r.append(ids)
        return r
    for status, o in rejected:
        gates = []
        for addr, get, okc, ans, notok in Out.asked(o, query):
            st = ans.f(field)
            if st.val is not None and is_sym(st.some):
                gates.append((okc, st))
        if not gates:
            continue
        base = list(o.pc) + ([Not(o.ok)] if status == 'err' else []) + cx.funds_assume()
        pre = [And(okc, Implies(st.some, Le(st.val.i, cx.now))) for okc, st in gates] + [Or(*[st.some for _, st in gates])]
        vs = set()
        for c in base:
            if is_sym(c):
                vs |= varsof(c)
        dv = set()
        for _, st in gates:
            dv |= {v for v in varsof(st.some) if field in sym.VARS[v].decl().name()}
        if not (vs & dv):
            continue
        subs = []
        for d in dv:
            t = sym.VARS[d]
            subs.append((t, z3.BoolVal(False) if t.sort() == z3.BoolSort() else z3.IntVal(0)))
        mine = {c.get_id() for c in base if is_sym(c)}
        if any(ids <= mine for ids in mirrors(tuple(sorted(dv)), subs)):
            continue            # the same rejection happens with the time cleared
        negs = set()
        for c in base:
            if is_sym(c):
                n = Not(c)
                if is_sym(n):
                    negs.add(n.get_id())
        cand = []
        for p in okp:
            cs = []
            dead = False
            for c in list(p.pc) + [p.ok]:
                if not is_sym(c):
                    dead = dead or c is False
                    continue
                if varsof(c) & dv:
                    c = keep(z3.simplify(z3.substitute(c, *subs)))
                    if z3.is_true(c):
                        continue
                    if z3.is_false(c):
                        dead = True
                        break
                if c.get_id() in negs:
                    dead = True
                    break
                cs.append(c)
            if not dead:
                cand.append((p, cs))
        res.conds += 1
        if not cand:
            continue
        r0, m = decide(base, pre, timeout)
        res.queries += 1
        if r0 == 'unsat':
            continue
        for p, cs in cand:
            allc = base + pre + cs + [c for c in cx.contract.facts(cx, p) if c is not True and not (is_sym(c) and varsof(c) & dv)]
            r, m = decide(allc, [], timeout)
            res.queries += 1
            if r == 'unsat':
                continue
            lab = 'no rejection once the start of trading has come'
            if r == 'unknown':
                res.unknown.append((lab, o.k))
                continue
            res.viol.append((lab, m, o, allc, status))
            try:
                case, exp, m2 = replay.Case(cx, o, status).build(allc, model=m)
                got = nat.run(case)
                d = replay.compare(exp, got, False)
                case2 = json.loads(json.dumps(case).replace('"~', '"'))
                for q in case2['queries']:
                    if isinstance(q.get('ok'), dict) and field in q['ok']:
                        q['ok'][field] = None
                got2 = nat.run(case2)
                if d is None and got2['status'] == 'ok' and not got2['unexpected']:
                    return dict(label=lab, outcome=o.k, status=status, case=case, readable=readable(case), expected=tojson(exp), observed=got,
                                without=got2['status']), []
                found = f'{lab}: rejected={d} cleared={got2["status"]} {got2.get("error")}'
            except replay.NoReplay as x:
                found = f'{lab}: {x}'
            if time.time() > deadline:
                break
    return None, [found] if found else []


# ------------------------------------------------------------------------------------------------ one message
def conditions(mod, entry, variant, prop):
    """[(status, fn)] conditions of a property on outcomes of this message"""
    r = [('ok', f) for e, v, f in mod.PROPS.get(prop, ()) if e == entry and v == variant]
    r += [('fail', f) for e, v, f in getattr(mod, 'FAILS', {}).get(prop, ()) if e == entry and v == variant]
    r += [('gate', f) for e, v, f in getattr(mod, 'GATES', {}).get(prop, ()) if e == entry and v == variant]
    return r


def run_task(task):
    """task = dict(contract, entry, variant, bounds, props=[...], samples, seed, timeout, budget)"""
    t0 = time.time()
    deadline = t0 + task.get('budget', 600)
    mod = module(task['contract'])
    out = dict(task=task, props={}, error=None)
    nat = replay.Native()
    try:
        b = dict(getattr(mod, 'TASKBOUNDS', {}).get((task['entry'], task['variant']), {}))
        b.update(task.get('bounds') or {})
        cx = Ctx(mod.Contract, task['entry'], task['variant'], b)
        cx.explore()
        pseudo = [Pseudo(cx, a, f'abort{k}') for k, a in enumerate(cx.aborts)]
        out.update(explore_s=round(cx.t_explore, 2), outs=len(cx.outs), accepted=sum(o.ok is not False for o in cx.outs), aborts=len(cx.aborts), steps=cx.en.steps,
                   branch_queries=sym.STAT['checks'], bounds={k: v for k, v in cx.en.bounds.items()} if isinstance(getattr(cx.en, 'bounds', None), dict) else b,
                   covered=sorted(n for n in cx.en.covered if n.split('::')[0].lstrip('<&') in core.REPO_CRATES),
                   notes=sorted(getattr(cx.en, 'notes', ())))
        for p in task['props']:
            res = Result()
            t = time.time()
            rep, tried = None, []
            for status, fn in conditions(mod, task['entry'], task['variant'], p):
                if status == 'gate':
                    rep, tr = gate_check(cx, pseudo, fn[0], fn[1], res, nat, deadline, task.get('timeout', 60000))
                    tried += tr
                    continue
                if status == 'ok':
                    todo = [('ok', o) for o in cx.outs if o.ok is not False]
                else:
                    todo = [('err', o) for o in cx.outs if o.ok is not True] + [('abort', o) for o in pseudo]
                for s, o in todo:
                    res.outs += 1
                    n = len(res.viol)
                    check_outcome(cx, o, fn, res, task.get('timeout', 60000), s)
                    if len(res.viol) > n:
                        one = Result()
                        one.viol = res.viol[n:]
                        rep, tr = reproduce(cx, nat, one, deadline)
                        tried += tr
                        if rep or len(res.viol) >= 6 or time.time() > deadline:
                            break
                if rep:
                    break
            out['props'][p] = dict(outs=res.outs, queries=res.queries, conds=res.conds, viol=sorted(set(l for l, *_ in res.viol)), nviol=len(res.viol),
                                   unknown=[[l, k] for l, k in res.unknown], time=round(time.time() - t, 2), replay=rep, tried=tried[:20])
        out['solver_s'] = round(sym.STAT.get('time', 0), 2)
        traces(cx, pseudo, nat, task, out)
    except Exception as x:
        out['error'] = f'{type(x).__name__}: {x}'
        out['trace'] = traceback.format_exc()
    finally:
        nat.close()
    out['time'] = round(time.time() - t0, 2)
    return out


def traces(cx, pseudo, nat, task, out):
    """push sampled outcomes through the native contract and compare everything observable"""
    n = task.get('samples', 0)
    out.update(traces=0, trace_ok=0, trace_diff=[], trace_skipped=0, sample=None)
    if not n:
        return
    rnd = random.Random(task.get('seed', 1))
    oks = [('ok', o) for o in cx.outs if o.ok is not False]
    bad = [('err', o) for o in cx.outs if o.ok is not True] + [('abort', o) for o in pseudo]
    rnd.shuffle(oks)
    rnd.shuffle(bad)
    end = time.time() + task.get('sample_s', 15)
    for todo, want in ((oks, n - n // 3), (bad, max(1, n // 3))):
        got_n = 0
        for s, o in todo:
            if got_n >= want or time.time() > end:
                break
            cs = list(o.pc) + ([o.ok] if s == 'ok' else [Not(o.ok)] if s == 'err' else []) + ([] if s == 'ok' else cx.funds_assume())
            try:
                case, exp, got, d = run_case(cx, nat, o, s, cs, timeout=5000)
            except replay.NoReplay:
                out['trace_skipped'] += 1
                continue
            got_n += 1
            out['traces'] += 1
            if s == 'ok':
                out['trace_ok'] += 1
            if d is not None:
                out['trace_diff'].append(dict(outcome=o.k, status=s, diff=d[:300], case=readable(case)))
            elif out['sample'] is None and s == 'ok':
                out['sample'] = dict(message=case['msg'], sender=(case.get('info') or {}).get('sender'), result=got['status'], rows=len(case['storage']))


if __name__ == '__main__':
    if sys.argv[1] == '--task':
        task = json.load(open(sys.argv[2]))
        r = run_task(task)
        with open(sys.argv[3] + '.part', 'w') as f:
            json.dump(r, f)
        os.rename(sys.argv[3] + '.part', sys.argv[3])
        sys.exit(0)
    name, entry, variant = sys.argv[1:4]
    mod = module(name)
    entry = getattr(mod, entry, entry)
    variant = None if variant == '-' else variant
    ps = sys.argv[4].split(',') if len(sys.argv) > 4 else list(mod.PROPS)
    ps = [p for p in ps if conditions(mod, entry, variant, p)]
    r = run_task(dict(contract=name, entry=entry, variant=variant, props=ps, bounds=eval(os.environ.get('BOUNDS', '{}')), samples=int(os.environ.get('SAMPLES', 0))))
    if r['error']:
        print(variant, 'ERROR', r['trace'][-1500:])
    print(variant, 'explore', r.get('explore_s'), 'outs', r.get('outs'), 'total', r['time'], 'traces', r.get('traces'), [x['diff'] for x in r.get('trace_diff', ())])
    for p, x in r['props'].items():
        print('  ', p, {k: v for k, v in x.items() if k in ('outs', 'queries', 'conds', 'time')}, 'UNKNOWN' if x['unknown'] else '',
              sorted(set(l for l, _ in x['unknown'])), 'VIOL' if x['viol'] else 'ok', x['viol'], 'REPRODUCED' if x['replay'] else '', x['tried'][:2])
