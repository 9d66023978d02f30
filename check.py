#!/usr/bin/env python3
"""Runs the checks of one property (or several): compile the harnesses against
/repo's current tree, execute them symbolically, replay counterexamples and
sample paths natively, write evidence, print verdicts.
   check.py P04 [--tier quick|thorough] [-v] [--only SUBSTR] [--keep]
"""
import sys, os, json, subprocess, time, tempfile, shutil, argparse, hashlib, threading, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VE_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
IRF = ['-O1', '-emit-llvm', '-c', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off', '-fno-discard-value-names', '-w']
DEF = ['-DNDEBUG']
def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', **kw)
def ensure_engine():
    vex = os.path.join(BUILD, 'vex'); src = [os.path.join(HERE, 'engine', f) for f in os.listdir(os.path.join(HERE, 'engine')) if f.endswith(('.cpp', '.h', '.inc')) and f not in ('rt.cpp', 'native.cpp')]
    if not os.path.exists(vex) or any(os.path.getmtime(s) > os.path.getmtime(vex) for s in src):
        r = sh(['bash', os.path.join(HERE, 'engine', 'build.sh'), BUILD])
        if r.returncode: print(r.stdout[-3000:]); sys.exit(2)
    return vex
class Unit:
    """one harness source compiled for the engine and natively"""
    def __init__(self, name, feats, defs, work):
        self.name, self.feats, self.defs, self.work = name, feats, defs, work
        self.tag = name.replace('/', '_').replace('.cpp', '') + ('_' + hashlib.md5(repr((feats, defs)).encode()).hexdigest()[:6] if feats or defs else '')
        self.dir = os.path.join(work, self.tag); os.makedirs(os.path.join(self.dir, 'ftk'), exist_ok=True)
        self.bc = None; self.err = None; self.nat = None; self.lock = threading.Lock()
    def inc(self, ir):
        i = ['-I' + self.dir, '-I' + os.path.join(HERE, 'harness')]
        i += ['-I' + os.path.join(HERE, 'stubs', 'common')]
        if ir: i += ['-I' + os.path.join(HERE, 'stubs', 'ir')]
        for f in self.feats: i += ['-I' + os.path.join(HERE, 'stubs', f)]
        return i + ['-I' + REPO + '/include', '-I' + REPO + '/include/ftk/external']
    def build(self):
        r = sh([sys.executable, os.path.join(HERE, 'stubs', 'gen_config.py'), REPO + '/include/ftk/config.hh.in', os.path.join(self.dir, 'ftk', 'config.hh')] + list(self.feats))
        if r.returncode: self.err = r.stdout; return
        src = os.path.join(HERE, 'harness', self.name); h = os.path.join(self.dir, 'h.bc'); rt = os.path.join(self.dir, 'rt.bc'); rc = os.path.join(self.dir, 'rtc.bc')
        r = sh(['clang++-18', '-std=c++17'] + IRF + DEF + list(self.defs) + self.inc(True) + [src, '-o', h])
        if r.returncode: self.err = r.stdout; return
        sh(['clang++-18', '-std=c++17', '-fno-access-control'] + IRF + DEF + self.inc(True) + [os.path.join(HERE, 'engine', 'rt.cpp'), '-o', rt])
        sh(['clang-18', '-fno-builtin'] + IRF + [os.path.join(HERE, 'engine', 'rtc.c'), '-o', rc])
        out = os.path.join(self.dir, 'a.bc'); r = sh(['llvm-link-18', h, rt, rc, '-o', out])
        if r.returncode: self.err = r.stdout; return
        self.bc = out
    def native(self):
        with self.lock:
            if self.nat is None:
                out = os.path.join(self.dir, 'nat')
                r = sh(['g++', '-std=c++17', '-O1', '-w', '-g0', '-fsanitize=address', '-fno-omit-frame-pointer', '-rdynamic', '-DVE_NATIVE'] + list(self.defs) + self.inc(False) + [os.path.join(HERE, 'harness', self.name), os.path.join(HERE, 'engine', 'native.cpp'), '-o', out, '-ldl', '-lpthread'])
                if r.returncode: self.nat = ''; self.nerr = r.stdout; print(r.stdout[-2000:], file=sys.stderr)
                else: self.nat = out
            return self.nat
def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for k, v in inputs.items(): f.write(k + ' ' + v + '\n')
def replay(unit, run, inputs_file):
    n = unit.native()
    if not n: return None, 'native build failed'
    try:
        r = sh([n, run['entry'], inputs_file] + [f'{k}={v}' for k, v in run['params'].items()], timeout=run.get('native_timeout', 20), env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:handle_abort=0'), cwd=unit.dir)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e: return 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
def vex_cmd(vex, unit, run, out, tier):
    c = [vex, unit.bc, '--entry', run['entry'], '--mode', run['mode'], '--out', out, '--repo', REPO, '--max-time', str(run['max_time']), '--timeout', str(run['timeout']), '--hard-timeout', str(run['hard_timeout']), '--samples', '3']
    c += run.get('flags', [])
    for k, v in run['params'].items(): c += ['--param', f'{k}={v}']
    return c
def limits():
    import resource
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('-v', action='store_true'); ap.add_argument('--only', default=''); ap.add_argument('--keep', action='store_true'); ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args(); import specs
    if a.tier not in ('quick', 'thorough'): a.tier = 'quick'
    P = specs.PROPS[a.prop]; t0 = time.time(); vex = ensure_engine(); tbuild = time.time() - t0
    work = os.path.join(BUILD, 'work', f'{a.prop}-{os.getpid()}'); os.makedirs(work, exist_ok=True)
    try: rc = check(a, P, vex, work, t0)
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush(); sys.exit(rc)
def check(a, P, vex, work, t0):
    runs = [dict(r) for r in P['runs'] if (a.tier in r['tiers']) and a.only in r['entry'] + ' ' + r['id']]
    for r in runs:
        if a.tier == 'thorough':
            r['params'] = {**r['params'], **r.get('tparams', {})}; r['max_time'] = r.get('tmax_time', r['max_time'] * 3); r['hard_timeout'] = r['hard_timeout'] * 3
    units = {}
    for r in runs:
        k = (r['file'], tuple(r['feats']), tuple(r['defs']))
        if k not in units: units[k] = Unit(r['file'], r['feats'], r['defs'], work)
        r['unit'] = units[k]
    kf = json.load(open(os.path.join(HERE, 'known_findings.json')))['known'] if os.path.exists(os.path.join(HERE, 'known_findings.json')) else []
    ex = ThreadPoolExecutor(a.j)
    list(ex.map(lambda u: u.build(), units.values()))
    bad = [u for u in units.values() if u.err]
    for u in bad: print(f'BUILD-ERROR {u.name}\n{u.err[-4000:]}')
    natf = [ex.submit(u.native) for u in units.values() if not u.err] if False else []
    def one(i):
        r = runs[i]; u = r['unit']
        if u.err: return None
        out = os.path.join(work, f'run{i}.json'); r['t'] = time.time()
        try:
            p = subprocess.Popen(vex_cmd(vex, u, r, out, a.tier) + (['-v'] if a.v else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', preexec_fn=limits)
            try: o, _ = p.communicate(timeout=r['max_time'] + 60)
            except subprocess.TimeoutExpired: os.killpg(p.pid, signal.SIGKILL); o, _ = p.communicate(); o += '\nKILLED (time)'
        finally: r['t'] = time.time() - r['t']
        r['log'] = o; r['rc'] = p.returncode
        if a.v: print(f'--- {r["id"]} rc={p.returncode} {r["t"]:.1f}s\n' + o[-3000:])
        try: return json.load(open(out))
        except Exception as e: r['crash'] = f'engine ended with {p.returncode}: ' + o[-300:]; return None
    # native builds share the pool with the engine runs
    nat = [ex.submit(u.native) for u in units.values() if not u.err]
    order = sorted(range(len(runs)), key=lambda i: -runs[i].get('cost', 1)); fut = {i: ex.submit(one, i) for i in order}
    res = {i: fut[i].result() for i in order}
    for n in nat: n.result()
    viols = []; known = {}; incomplete = []; validated = 0; valbad = []; vac = []; funcs = set(); assum = set(P.get('assumptions', [])); samples = []
    tot = dict(paths=0, instr=0, queries=0, solver_s=0.0, asserts=0, proved=0, unknown=0, forks=0, merges=0, maxq=0.0)
    repdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(repdir, exist_ok=True)
    percheck = []
    for i, r in enumerate(runs):
        d = res[i]
        if d is None: incomplete.append(f'{r["id"]}: {"build error" if r["unit"].err else r.get("crash", "no result")}'); percheck.append(dict(run=r['id'], result='no result')); continue
        tot['paths'] += d['paths_completed'] + d['paths_cut']; tot['instr'] += d['instructions']; tot['queries'] += d['queries']; tot['solver_s'] += d['solver_s']; tot['asserts'] += d['asserts']; tot['proved'] += d['asserts_proved']; tot['unknown'] += d['unknown']; tot['forks'] += d['forks']; tot['merges'] += d['merges']; tot['maxq'] = max(tot['maxq'], d['max_query_s'])
        funcs.update(d['functions']); assum.update(d['assumptions'])
        for x in d['incomplete']: incomplete.append(f'{r["id"]}: {x}')
        for x in d['unknown_asserts']: incomplete.append(f'{r["id"]}: solver gave no answer on "{x}"')
        if not d['reach'] and not r.get('noreach') and not d['violations']: vac.append(r['id'])
        percheck.append(dict(run=r['id'], entry=r['entry'], bound=r['bound'], mode=r['mode'], params=r['params'], paths=d['paths_completed'], cut=d['paths_cut'], assertions=d['asserts'], discharged=d['asserts_proved'], queries=d['queries'], solver_s=round(d['solver_s'], 2), wall_s=round(r['t'], 1), merges=d['merges']))
        # counterexamples
        for k, v in enumerate(d['violations']):
            f = os.path.join(repdir, f'{a.prop}-{r["id"]}-{k}.txt'); write_inputs(f, v['inputs'])
            rc, o = replay(r['unit'], r, f)
            if rc == 'timeout' and 'abort' not in v['kind']: conf = r.get('hang_is_violation', False)
            else: conf = rc not in (0, 4, None, 'timeout') and (v['kind'] != 'assert' or 'REPLAY-VIOLATION' in o or 'AddressSanitizer' in o or (rc is not None and rc != 1))
            ent = dict(run=r['id'], key=v['key'], inputs=v['inputs'], where=v['where'], replay=f, native_rc=rc, native=(o or '')[-400:])
            m = next((q for q in kf if q['property'] == a.prop and q['run'] == r['id'] and q['key'] == v['key']), None)
            if not conf: incomplete.append(f'{r["id"]}: counterexample to "{v["key"]}" did not reproduce natively (rc={rc})'); ent['confirmed'] = False; 
            elif m: known[m['id']] = m
            else:
                sc = f[:-4] + '.sh'; write_replay(sc, r, f); ent['replay'] = sc; viols.append(ent)
            if a.v or not conf: print(json.dumps(ent, indent=1)[:2500], file=sys.stderr)
        # sample paths: concrete engine run == native run
        for k, s in enumerate(d['samples'][:r.get('nsamples', 2)]):
            if d['violations'] or r['unit'].nat in ('', None): break
            f = os.path.join(work, f's{i}_{k}.txt'); write_inputs(f, s)
            rc, o = replay(r['unit'], r, f); samples.append(dict(run=r['id'], inputs={q: s[q] for q in list(s)[:40]}))
            if rc == 'timeout': continue
            if rc not in (0, 4): valbad.append(f'{r["id"]}: native run of a sampled path ended with {rc}: {(o or "")[-300:]}'); continue
            out = os.path.join(work, f'c{i}_{k}.json')
            try: c = sh(vex_cmd(vex, r['unit'], r, out, a.tier) + ['--inputs', f], timeout=60); cd = json.load(open(out))
            except Exception as e: valbad.append(f'{r["id"]}: concrete engine run failed'); continue
            tn = [l[6:] for l in o.splitlines() if l.startswith('TRACE ')]
            if rc == 0 and len(tn) == len(cd['trace']) and all(same(x, y) for x, y in zip(tn, cd['trace'])): validated += 1
            elif rc == 0: valbad.append(f'{r["id"]}: engine and native traces differ on a sampled path ({len(tn)} vs {len(cd["trace"])} entries; first difference {next(((x, y) for x, y in zip(tn, cd["trace"]) if not same(x, y)), None)})')
    wall = time.time() - t0
    cov = dict(explanation=P['how'], bounds=[dict(run=r['id'], bound=r['bound']) for r in runs], functions_encoded=sorted(funcs), states=tot['paths'], transitions=tot['forks'] + tot['merges'] + tot['instr'], paths=tot['paths'], instructions_executed=tot['instr'], forks=tot['forks'], merges=tot['merges'], assertions_checked=tot['asserts'], assertions_discharged=tot['proved'], assertions_unknown=tot['unknown'], solver_queries=tot['queries'], solver_seconds=round(tot['solver_s'], 2), longest_query_s=round(tot['maxq'], 2), traces_validated_against_impl=validated, samples=samples[:12], runs=percheck, undecided=incomplete, validation_mismatches=valbad, vacuous_runs=vac, outside=P.get('outside', ''), known_findings=[k for k in known], exhaustive=not incomplete)
    ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', coverage=cov, assumptions=sorted(assum), wall_s=round(wall, 1), violations=len(viols))
    if not a.only: json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'), indent=1)
    for k in sorted(known): print(f'KNOWN-FINDING: property={a.prop} {known[k]["text"]}')
    for x in incomplete: print(f'UNDECIDED {a.prop} {x}'[:600])
    for x in valbad: print(f'VALIDATION {a.prop} {x}'[:600])
    for x in vac: print(f'VACUOUS {a.prop} {x}')
    seen = set()
    for v in viols:
        k = (v['run'], v['key'])
        if k in seen: continue
        seen.add(k); print(f'  counterexample in {v["run"]}: {v["key"]}  inputs {json.dumps(v["inputs"])[:700]}'); print(f'VIOLATION property={a.prop} replay={v["replay"]}')
    print(f'{a.prop} {a.tier}: runs={len(runs)} paths={tot["paths"]} assertions={tot["proved"]}/{tot["asserts"]} queries={tot["queries"]} solver={tot["solver_s"]:.1f}s validated={validated} wall={wall:.1f}s')
    if viols: return 1
    if tot['proved'] == 0 or vac: return 2
    return 0
def same(x, y):
    if x == y: return True
    a, b = x.rsplit(' ', 1), y.rsplit(' ', 1)
    if a[0] != b[0]: return False
    if '?' in (a[1], b[1]): return True
    try: p, q = float(a[1]), float(b[1])
    except ValueError: return False
    return abs(p - q) <= 1e-6 * max(1, abs(p), abs(q)) or (p != p and q != q)
def write_replay(sc, r, f):
    with open(sc, 'w') as o:
        o.write('#!/bin/bash\n# replays the counterexample against the real code: exit 1 = the property is broken\n')
        o.write(f'exec python3 {HERE}/replay.py {r["file"]} {r["entry"]} {f} --feats "{" ".join(r["feats"])}" --defs "{" ".join(r["defs"])}" ' + ' '.join(f'{k}={v}' for k, v in r['params'].items()) + '\n')
    os.chmod(sc, 0o755)
if __name__ == '__main__': main()
