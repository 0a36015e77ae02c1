#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [quick|thorough] decides one property of properties.jsonl on /repo's current tree.

exit 0  every explored outcome satisfies the property
exit 1  a counterexample exists and the natively compiled contract reproduces it (line VIOLATION property=.. replay=..)
exit 2  no answer (build failure, code outside the encoding, solver gave up, counterexample not reproduced)

check.py --replay FILE runs a recorded counterexample on the native contract again."""
import fcntl
import json
import os
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VF_BUILD') or VERIF + '/build'
os.environ['VF_BUILD'] = BUILD
sys.path.insert(0, VERIF + '/engine')
FINDINGS = VERIF + '/known_findings.txt'
JOBS = 8
CONTRACT = {'M': 'v2', 'L': 'v1', 'R': 'ra', 'S': 'common'}
DIRS = {'v2': 'contracts/stargaze-marketplace-v2', 'v1': 'contracts/marketplace', 'ra': 'contracts/reserve-auction', 'common': 'packages/sg-marketplace-common'}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, cwd, env=None):
    e = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def build_mir():
    return sh(['cargo', '+nightly', 'check', '--offline', '--target', 'x86_64-unknown-linux-gnu'], VERIF + '/harness', {
        'VF_ARGS_FILE': BUILD + '/args', 'CARGO_TARGET_DIR': BUILD + '/mir', 'RUSTC_WRAPPER': VERIF + '/tools/rustc_wrap.sh',
        'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 --sysroot ' + os.path.expanduser('~/.cache/miri')
                     + ' -Cdebug-assertions=off -Coverflow-checks=on --cap-lints allow'})


def build_ms():
    return sh(['cargo', '+nightly', 'build', '--offline'], VERIF + '/mirserver', {'CARGO_TARGET_DIR': BUILD + '/ms'})


def build_replay():
    r = sh(['cargo', 'build', '--offline'], VERIF + '/replay', {'CARGO_TARGET_DIR': BUILD + '/replay'})
    if r[0] == 0:
        open(BUILD + '/replay.ready', 'w').close()
    return r


def build(parts=None):
    """(re)build what is run from the current working tree; -> threads still running"""
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(BUILD + '/replay.ready'):
        os.unlink(BUILD + '/replay.ready')
    res = {}

    def go(name, f):
        t = time.time()
        try:
            res[name] = f() + (time.time() - t,)
        except Exception as x:
            res[name] = (1, str(x), 0)
    ths = {}
    for name, f in (('mir', build_mir), ('ms', build_ms), ('replay', build_replay)):
        ths[name] = threading.Thread(target=go, args=(name, f), daemon=True)
        ths[name].start()
    for n in ('mir', 'ms'):
        ths[n].join()
        if res[n][0]:
            fail(f'the {n} build failed', res[n][1][-3000:])
    return ths['replay'], res


def fail(why, detail=''):
    print(f'NO-ANSWER: {why}', flush=True)
    if detail:
        log(detail)
    finish(2)


LIVE = []


def finish(code):
    for p in LIVE:
        if p.poll() is None:
            p.kill()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


# rough cost of the messages (seconds), so that the long ones start first
COST = {'UpdateBid': 100, 'UpdateCollectionBid': 75, 'SellNft': 45, 'BuyCollectionNft': 45, 'SetAsk': 40, 'UpdateAsk': 40, 'SetCollectionBid': 40, 'SetBid': 35, 'BuySpecificNft': 35,
        'AcceptBid': 30, 'AcceptCollectionBid': 30, 'AcceptAsk': 25, 'EndBlock': 10, 'SettleAuction': 5}


def main():
    if sys.argv[1] == '--replay':
        return replay_file(sys.argv[2])
    if sys.argv[1] == '--build':
        t, res = build()
        t.join()
        if res['replay'][0]:
            fail('the replay build failed', res['replay'][1][-3000:])
        log({k: round(v[2], 1) for k, v in res.items()})
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    limit = 840 if tier == 'quick' else int(os.environ.get('VF_LIMIT', 3600))
    os.makedirs(BUILD, exist_ok=True)
    lock = open(BUILD + '/lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    rth, bres = build()
    t_build = time.time() - t0

    import importlib
    name = CONTRACT[prop[0]]
    mod = importlib.import_module('props_' + name)
    entries = []
    for table in (mod.PROPS, getattr(mod, 'FAILS', {}), getattr(mod, 'GATES', {})):
        for e, v, _ in table.get(prop, ()):
            if (e, v) not in entries:
                entries.append((e, v))
    tasks = []
    extra = getattr(mod, 'EXTRA', {}).get(prop, ())
    for e, v in entries:
        tasks.append(dict(entry=e, variant=v, bounds={}))
    for e, v, b in extra:
        tasks.append(dict(entry=e, variant=v, bounds=dict(b), pinned=True))
    if tier != 'quick':
        # beyond the bounds that must be decided: as far as time allows
        for e, v in entries:
            tasks.append(dict(entry=e, variant=v, bounds=dict(getattr(mod, 'DEEP', {'vec': 3, 'rows': 3})), deep=True))
    work = f'{BUILD}/work/{prop}'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for i, t in enumerate(tasks):
        t.update(contract=name, props=[prop], seed=seed + i, samples=3 if tier == 'quick' else 12, sample_s=10 if tier == 'quick' else 240,
                 timeout=60000 if tier == 'quick' else 600000, budget=limit - 60)
    order = sorted(range(len(tasks)), key=lambda i: (bool(tasks[i].get('deep')), -COST.get(tasks[i]['variant'], 1) - (50 if tasks[i].get('pinned') else 0)))
    running = {}
    results = {}
    env = dict(os.environ, PYTHONHASHSEED='0', VF_WAIT=BUILD + '/replay.ready')
    while order or running:
        while order and len(running) < JOBS:
            i = order.pop(0)
            tf, of = f'{work}/{i}.task', f'{work}/{i}.out'
            json.dump(tasks[i], open(tf, 'w'))
            p = subprocess.Popen([sys.executable, VERIF + '/engine/verify.py', '--task', tf, of], env=env, stdout=open(f'{work}/{i}.log', 'w'), stderr=subprocess.STDOUT)
            LIVE.append(p)
            running[i] = p
        for i, p in list(running.items()):
            if p.poll() is None:
                continue
            del running[i]
            try:
                results[i] = json.load(open(f'{work}/{i}.out'))
            except Exception:
                results[i] = dict(task=tasks[i], error=f'worker ended with {p.returncode}: ' + open(f'{work}/{i}.log').read()[-500:], props={}, time=0)
            r = results[i]
            log(f"{prop} {short(tasks[i])}: {r.get('outs')} outcomes, {r['time']} s", 'ERROR ' + r['error'] if r['error'] else '')
            if (r['props'].get(prop) or {}).get('replay'):
                order.clear()
                for q in running.values():
                    q.kill()
                running.clear()
                break
        if not rth.is_alive() and bres['replay'][0]:
            fail('the replay build failed', bres['replay'][1][-3000:])
        if time.time() - t0 > limit:
            for q in running.values():
                q.kill()
            for i in list(running) + order:
                results[i] = dict(task=tasks[i], error='time limit', props={}, time=limit)
            running.clear()
            break
        time.sleep(0.05)
    code = report(prop, tier, seed, name, tasks, results, t0, t_build, mod)
    finish(code)


def short(t):
    return t['entry'].split('::')[-1] + ('.' + t['variant'] if t['variant'] else '') + (' ' + json.dumps(t['bounds']) if t['bounds'] else '')


def findings(prop):
    r = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            if l.startswith(f'open: property={prop} '):
                r.append(l.split(' ', 2)[2].strip())
    return r


def report(prop, tier, seed, name, tasks, results, t0, t_build, mod):
    viol, unrep, unknown, errors, diffs, partial = [], [], [], [], [], []
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], queries_discharged=0, branch_queries=0, conditions=0, solver_s=0.0,
               accepted_outcomes=0, messages={}, functions_encoded=set(), traces_skipped=0, bounds={})
    for i, t in enumerate(tasks):
        r = results.get(i)
        if r is None:
            continue
        sh_ = short(t)
        deep = t.get('deep')
        if r['error']:
            (partial if deep else errors).append(f"{sh_}: {r['error']}")
            if r.get('trace'):
                log(r['trace'][-1500:])
            continue
        x = r['props'].get(prop)
        if x is None:
            continue
        cov['states'] += r['outs'] + r['aborts']
        cov['transitions'] += r['steps']
        cov['accepted_outcomes'] += r['accepted']
        cov['branch_queries'] += r['branch_queries']
        cov['queries_discharged'] += x['queries']
        cov['conditions'] += x['conds']
        cov['solver_s'] += r.get('solver_s', 0)
        cov['traces_validated_against_impl'] += r.get('traces', 0) - len(r.get('trace_diff', ()))
        cov['traces_skipped'] += r.get('trace_skipped', 0)
        cov['functions_encoded'] |= set(r['covered'])
        cov['messages'][sh_] = dict(outcomes=r['outs'], accepted=r['accepted'], panics=r['aborts'], conditions=x['conds'], queries=x['queries'],
                                    accepted_replayed=r.get('trace_ok', 0), wall_s=r['time'])
        cov['bounds'][sh_] = r.get('bounds')
        if r.get('sample') and len(cov['samples']) < 4:
            cov['samples'].append(dict(r['sample'], entry=sh_))
        if x['replay']:
            viol.append((sh_, x['replay']))
        elif x['viol']:
            unrep.append(f"{sh_}: {x['viol']} {x['tried'][:2]}")
        if not r['accepted'] and not r.get('killed'):
            errors.append(f'{sh_}: no accepted outcome (the conditions would be vacuous)')
        for lab, k in x['unknown']:
            (partial if deep else unknown).append(f'{sh_}: {lab} (outcome {k})')
        for d in r.get('trace_diff', ()):
            diffs.append(f"{sh_} outcome {d['outcome']}: {d['diff']}")
    cov['functions_encoded'] = sorted(cov['functions_encoded'])
    cov['functions_encoded_count'] = len(cov['functions_encoded'])
    cov['solver_s'] = round(cov['solver_s'], 2)
    if not cov['samples']:
        cov['samples'] = [dict(entry=k, outcomes=v['outcomes']) for k, v in list(cov['messages'].items())[:3]]
    cov['build_s'] = round(t_build, 1)
    cov['not_decided'] = unrep + unknown + errors
    cov['deeper_bounds_not_finished'] = partial
    cov['encoding_mismatches'] = diffs
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=round(time.time() - t0, 1),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), violations=[])
    code = 0
    known = findings(prop)
    for sh_, rep in viol:
        path = f'{BUILD}/replay_{prop}.json'
        json.dump(dict(property=prop, message=sh_, **rep), open(path, 'w'), indent=1)
        what = f"{sh_}: {rep['label']}"
        ev['violations'].append(dict(message=sh_, condition=rep['label'], input=rep['readable'], observed=rep['observed'].get('status')))
        if any(k in what for k in known):
            print(f'KNOWN-FINDING: property={prop} {what}')
            continue
        print(f'{what} is broken by {json.dumps(rep["readable"]["msg"])[:600]}')
        print(f'VIOLATION property={prop} replay={path}', flush=True)
        code = 1
    if not code and (unrep or unknown or errors or diffs):
        code = 2
        for k, l in (('counterexample not reproduced', unrep), ('undecided', unknown), ('error', errors), ('encoding and native contract differ', diffs)):
            for x in l[:5]:
                print(f'NO-ANSWER: {k}: {x[:600]}')
    json.dump(ev, open(f'{VERIF}/evidence/{prop}.json', 'w'), indent=1)
    if code == 0:
        print(f"{prop}: held on {cov['states']} symbolic outcomes of {len(cov['messages'])} messages, {cov['queries_discharged']} queries, "
              f"{cov['traces_validated_against_impl']} outcomes replayed natively, {ev['wall_s']} s")
    return code


def replay_file(path):
    t, res = build()
    t.join()
    import replay
    d = json.load(open(path))
    got = replay.Native().run(d['case'])
    print(d['property'], d['message'], d['label'])
    print('same as recorded:', got == d['observed'])
    print(json.dumps(got)[:2000])
    return 0


if __name__ == '__main__':
    sys.exit(main())
