#!/usr/bin/env python3
"""check.py ID: decides property ID on /repo's current tree.  See DESIGN.md.
   check.py --replay FILE: runs a reported counterexample against the real code."""
import sys, os, json, time, shutil, threading, collections, tempfile
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V + '/tools')
import symlib, cases
from symlib import *
def known():
    k = {}
    for l in open(V + '/known_findings.txt'):
        l = l.strip()
        if l.startswith('finding:'):
            d = dict(x.split('=', 1) for x in l[8:].split() if '=' in x); k[(d['property'], d['id'])] = l[8:].split(' ', 3)[-1]
    return k
def main():
    t0 = time.time(); tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    a = sys.argv[1:]; keep = '--keep' in a; replay = None; only = None
    if '--replay' in a: replay = json.load(open(a[a.index('--replay') + 1])); pid = replay['property']
    else: pid = a[0]
    if '--thorough' in a: tier = 'thorough'
    if '--only' in a: only = a[a.index('--only') + 1]
    if not os.path.exists(V + '/build/symex'): sh(['bash', V + '/engine/build.sh'])
    work = tempfile.mkdtemp(prefix='check-' + pid + '-', dir=V + '/build'); rc = 2
    try:
        B = Build(work)
        if replay:
            h = dict(cases.H[replay['harness']], id=replay['harness']); b = B.native(h); r = run_native(b, replay['inputs'], replay['args'])
            print(json.dumps(r, indent=1)); print('reproduced' if confirms(replay, r) else 'not reproduced'); return 0
        rc = decide(pid, tier, seed, B, work, t0, only)
    except BuildError as e: print('ERROR: build failed\n' + str(e)); rc = 2
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
        else: print('work directory', work)
    return rc
def decide(pid, tier, seed, B, work, t0, only=None):
    P = cases.P[pid]; budget = P.get('budget', 140) if tier == 'quick' else P.get('budget_thorough', 780); deadline = t0 + budget
    cs = P['quick'] if tier == 'quick' else P.get('thorough', P['quick'])
    cs = [dict(c) for c in cs]
    if only: cs = [c for c in cs if only in json.dumps(c)]
    hs = []
    for c in cs:
        if c['h'] not in hs: hs.append(c['h'])
    H = {h: dict(cases.H[h], id=h) for h in hs}
    bcf = {h: threading.Thread() for h in hs}; bc = {}; err = []
    def buildbc(h):
        try: bc[h] = B.bitcode(H[h])
        except Exception as e: err.append(e)
    ts = [threading.Thread(target=buildbc, args=(h,)) for h in hs]
    for t in ts: t.start()
    for t in ts: t.join()
    if err: raise err[0]
    nat = {}; nerr = []
    def buildnat(h):
        try: nat[h] = B.native(H[h])
        except Exception as e: nerr.append(e)
    nts = [threading.Thread(target=buildnat, args=(h,)) for h in hs]
    for t in nts: t.start()
    # symbolic execution: cases share 8 slots
    slots = 8; cv = threading.Condition(); free = [slots]; res = [None] * len(cs); stop = [False]
    def runcase(i):
        c = cs[i]; j = c.get('jobs', 4)
        with cv:
            while free[0] < j and not stop[0]: cv.wait()
            if stop[0]: return
            free[0] -= j
        try:
            left = deadline - time.time()
            if left < 3: res[i] = None; return
            o = ['--seed', str(seed)] + list(c.get('opts', []))
            r = run_symex(bc[c['h']], c.get('args', {}), f'{work}/o{i}', j, min(left, c.get('time', 1e9)), o); shutil.rmtree(f'{work}/o{i}', ignore_errors=True)
            res[i] = r
            if r['viol']: stop[0] = True
        finally:
            with cv: free[0] += j; cv.notify_all()
    th = []
    # start in order, so that the leading cases get the slots first
    for i in range(len(cs)):
        t = threading.Thread(target=runcase, args=(i,)); th.append(t); t.start(); time.sleep(0.01)
    for t in th: t.join()
    for t in nts: t.join()
    if nerr: raise nerr[0]
    # ---- judge
    K = known(); viol = 0; notes = []; incomplete = []; tot = collections.Counter(); cov = collections.Counter(); funcs = set(); inc = collections.Counter(); chk = collections.Counter(); smax = 0
    unrepro = []; findseen = {}; caserec = []
    for c, r in zip(cs, res):
        name = c['h'] + ' ' + ' '.join(f'{k}={v}' for k, v in c.get('args', {}).items())
        if r is None:
            if not stop[0]: incomplete.append(name + ': not started within the budget')
            continue
        tot.update(r['n']); cov.update(r['covers']); inc.update(r['inconclusive']); chk.update(r['checks']); smax = max(smax, r['solver_max_s'])
        funcs |= {f for f in r['functions'] if 'cppsas7bdat' in f or 'fmt' in f or c.get('allfuncs')}
        done = not r['n']['left'] and not r['n']['timeout'] and not r['n']['crashed'] and r['rc'] == 0 and not r['inconclusive']
        caserec.append({'case': name, 'paths': r['n']['paths'], 'complete': bool(done), 'wall_s': round(r['wall'], 1), 'queries': r['n']['queries'], 'solver_s': round(r['n']['solver_s'], 1)})
        for v in r['viol']:
            if viol and len(unrepro) > 3: break
            rr = None
            for fill in (0xA5, 0):
                rr = run_native(nat[c['h']], v['inputs'], c.get('args', {}), fill=fill)
                if confirms(v, rr): break
            if confirms(v, rr):
                os.makedirs(V + '/evidence', exist_ok=True); fn = f'{V}/evidence/{pid}.replay.json'
                if not viol: json.dump({'property': pid, 'harness': c['h'], 'args': c.get('args', {}), 'inputs': v['inputs'], 'names': v['names'], 'kind': v['kind'], 'msg': v['msg'], 'obs': v['obs'], 'stack': v['stack'], 'native': rr}, open(fn, 'w'), indent=1)
                if not viol:
                    print(f'{pid}: {v["kind"]}: {v["msg"]}\n  case: {name}\n  inputs: {v["inputs"]}\n  at: ' + v['stack'].replace('\n', '\n      '))
                    print(f'VIOLATION property={pid} replay={fn}', flush=True)
                viol += 1
            elif v['kind'] == 'hang': incomplete.append(name + ': a path exceeds the step bound')
            else: unrepro.append((name, v, rr))
        for i, x in r['find'].items():
            rr = run_native(nat[c['h']], x['inputs'], c.get('args', {}))
            if i not in rr.get('finds', []): unrepro.append((name, {'kind': 'finding', 'msg': i, 'inputs': x['inputs']}, rr)); continue
            if (pid, i) in K: findseen.setdefault(i, name)
            else:
                fn = f'{V}/evidence/{pid}.replay.json'; os.makedirs(V + '/evidence', exist_ok=True)
                json.dump({'property': pid, 'harness': c['h'], 'args': c.get('args', {}), 'inputs': x['inputs'], 'kind': 'finding', 'msg': i, 'native': rr}, open(fn, 'w'), indent=1)
                print(f'{pid}: unlisted finding {i}: {name} {x["inputs"]}\nVIOLATION property={pid} replay={fn}', flush=True); viol += 1
        if not done and not r['viol']: incomplete.append(name + f': {r["n"]["paths"]} paths, {r["n"]["left"]} left, rc {r["rc"]} ' + '; '.join(k.split(' @ ')[0] for k in r['inconclusive'] if ' @ ' in k) + (r['out'][-300:] if r['rc'] else ''))
        if done and not r['viol']:
            for w in c.get('covers', cases.H[c['h']].get('covers', [])):
                if not r['covers'].get(w): notes.append(f'vacuous: {name} never reaches "{w}"')
    for i in findseen: print(f'KNOWN-FINDING: property={pid} {K[(pid, i)]}')
    # ---- validation of the encoding: sampled paths must behave the same in the native build
    val = 0; samples = []; mism = []
    if not viol:
        jobs = []
        nmax = 60 if tier == 'quick' else 300
        per = max(2, nmax // max(1, len(cs)))
        for c, r in zip(cs, res):
            if r: jobs += [(c, s) for s in r['samples'][:per] if not s['undef']]
        with cf.ThreadPoolExecutor(8) as ex:
            for (c, s), rr in zip(jobs, ex.map(lambda x: run_native(nat[x[0]['h']], x[1]['inputs'], x[0].get('args', {})), jobs)):
                ok = rr['rc'] == 0 and [[k, str(v)] for k, v in s['obs']] == rr['obs']
                if ok:
                    val += 1
                    if len(samples) < 6: samples.append({'harness': c['h'], 'args': c.get('args', {}), 'inputs': s['inputs'], 'observed': s['obs']})
                else: mism.append((c, s, rr))
    rc = 0
    if viol: rc = 1
    elif unrepro or mism or any(n.startswith('vacuous') for n in notes): rc = 2
    for n, v, rr in unrepro[:3]: print(f'NOT REPRODUCED: {n}: {v["kind"]} {v["msg"]} inputs {v["inputs"]}\n{v.get("stack","")}\n native: {rr}')
    for c, s, rr in mism[:3]: print(f'ENCODING MISMATCH: {c} {s} native {rr}')
    for n in notes: print(n)
    for n in incomplete: print('INCOMPLETE:', n)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': {
        'states': tot['paths'] + tot['forks'], 'transitions': tot['branches'], 'traces_validated_against_impl': val, 'samples': samples or [{'note': 'a violation was reported: no passing path sampled'}],
        'paths_completed': tot['paths'], 'instructions_executed': tot['instr'], 'assertions_evaluated': tot['checks'], 'assertions_by_id': dict(chk), 'memory_bounds_checked': tot['bounds'],
        'solver_queries': tot['queries'], 'solver_sat': tot['sat'], 'solver_unsat': tot['unsat'], 'solver_unknown': tot['unknown'], 'solver_seconds': round(tot['solver_s'], 2), 'solver_max_query_s': round(smax, 2), 'byte_case_distinctions': tot['domcases'],
        'cases': caserec, 'exhaustive': not incomplete and not viol, 'incomplete': incomplete, 'inconclusive': dict(inc), 'covers': dict(cov), 'functions_encoded': sorted(f[:200] for f in funcs), 'bounds': P['bounds'], 'outside': P.get('outside', '')},
        'assumptions': cases.ASSUME + P.get('assume', []), 'wall_s': round(time.time() - t0, 1), 'violations': viol}
    os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    print(f'{pid} {tier}: {"VIOLATED" if viol else "error" if rc else "held on everything explored"}; {tot["paths"]} paths, {tot["queries"]} queries ({tot["solver_s"]:.0f} s solver), {val} paths validated natively, {len(incomplete)} incomplete, {time.time()-t0:.0f} s')
    return rc
if __name__ == '__main__': sys.exit(main())
