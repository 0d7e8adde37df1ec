#!/usr/bin/env python3
"""Build /repo's current sources with instrumentation, run the monitors of one property, decide.

usage: check.py <ID> [--tier quick|thorough] [--replay FILE] [--keep]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed (inconclusive).
"""
import sys, os, json, glob, hashlib, subprocess, time, shutil, struct, re, mmap
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
OUT = os.environ.get('VERIF_OUT', V)      # evidence and replays
sys.path.insert(0, os.path.join(V, 'lib'))
from specs import SPECS, VARIANTS
NCPU = min(8, os.cpu_count() or 8)

class Inconclusive(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def tree_hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]

def repo_inputs():
    r = []
    for base in ('include', 'src'):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            r += [os.path.join(d, f) for f in fs if not f.startswith('.')]
    return r

def compile_obj(cmd, out):
    if os.path.exists(out): return
    tmp = '%s.%d.tmp' % (out, os.getpid())
    p = sh(cmd + ['-o', tmp])
    if p.returncode:
        raise Inconclusive('compilation failed: %s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-4000:]))
    os.rename(tmp, out)

def build(jobs):
    """jobs: list of (variant, driver or None). Returns {(variant, driver): binary}."""
    os.makedirs(BUILD, exist_ok=True)
    rin = repo_inputs()
    todo, links = [], {}
    for vname, driver in jobs:
        v = VARIANTS[vname]
        cxx, flags = v['cxx'], v['flags'] + ['-DBOOST_PROGRAM_OPTIONS_NO_LIB', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(V, 'lib')]
        key = tree_hash(rin, 'lib ' + cxx + ' '.join(flags))
        objs = []
        for s in sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp'))):
            o = os.path.join(BUILD, '%s-%s-%s.o' % (os.path.basename(s)[:-4], vname, key))
            # every translation unit of the library is compiled as it is, with assertions on
            todo.append(([cxx] + flags + v.get('libflags', []) + ['-c', s], o)); objs.append(o)
        src = os.path.join(V, 'drivers', driver + '.cpp')
        hin = rin + [src] + [f for f in glob.glob(os.path.join(V, 'lib', '*.hpp')) + glob.glob(os.path.join(V, 'drivers', '*.hpp'))]
        dkey = tree_hash(hin, 'drv ' + cxx + ' '.join(flags) + ' '.join(v.get('drvflags', [])))
        do = os.path.join(BUILD, 'drv_%s-%s-%s.o' % (driver, vname, dkey))
        todo.insert(0, ([cxx] + flags + v.get('drvflags', []) + ['-c', src], do))
        dobjs = [do]
        with open(src) as f: wants_winmain = 'winmain.hpp' in f.read()
        if wants_winmain:
            tu = os.path.join(V, 'lib', 'winmain_tu.cpp')
            wo = os.path.join(BUILD, 'winmain_tu-%s-%s.o' % (vname, tree_hash(rin + [tu], 'win ' + cxx + ' '.join(flags))))
            todo.append(([cxx] + flags + v.get('libflags', []) + ['-DWINMAIN="%s/src/winmain.cpp"' % REPO, '-c', tu], wo)); dobjs.append(wo)
        exe = os.path.join(BUILD, '%s-%s-%s-%s' % (driver, vname, key[:8], dkey[:8]))
        if v.get('shared'):
            so = os.path.join(BUILD, 'libpo-%s-%s.so' % (vname, key))
            links[(vname, None)] = (so, [cxx] + flags + ['-shared'] + objs)
            links[(vname, driver)] = (exe, [cxx] + flags + dobjs + [so, '-Wl,-rpath,' + BUILD, '-lpthread'])
        else:
            links[(vname, driver)] = (exe, [cxx] + flags + dobjs + objs + v.get('ldflags', []) + ['-lpthread'])
    uniq = {}
    for c, o in todo: uniq.setdefault(o, c)
    with ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(compile_obj, c, o) for o, c in uniq.items()]: f.result()
        def link(exe, cmd): compile_obj(cmd, exe)
        for last in (False, True):   # libraries first
            for f in [ex.submit(link, e, c) for k, (e, c) in links.items() if (k[1] is not None) == last]: f.result()
    return {k: e for k, (e, c) in links.items()}

ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=88:hard_rss_limit_mb=3000:allocator_may_return_null=0:strict_string_checks=1:detect_stack_use_after_return=1:handle_abort=1:symbolize=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=88:second_deadlock_stack=1',
    'LC_ALL': 'C',
}

def crash_key(text, rc):
    if 'Assertion' in text: return 'crash-assertion'
    if 'terminate called' in text: return 'crash-terminate'
    m = re.search(r'SUMMARY: (\w+): ([\w-]+)', text)
    if m: return 'crash-%s-%s' % (m.group(1), m.group(2))
    m = re.search(r'runtime error: ([a-z -]+)', text)
    if m: return 'crash-ub-' + m.group(1).strip().replace(' ', '-')[:40]
    if 'Assertion' in text: return 'crash-assertion'
    if 'hard rss limit' in text: return 'crash-memory-exhausted'
    if 'WARNING: ThreadSanitizer: data race' in text: return 'data-race'
    return 'crash-rc%d' % rc

def crash_msg(text):
    """the line that says what happened, then the first frames"""
    l = text.splitlines()
    k = [i for i, x in enumerate(l) if re.search(r'Assertion|terminate called|runtime error|ERROR:|WARNING: Thread|Error:|== (Invalid|Conditional|Use of)|SUMMARY: monitor', x)]
    return '\n'.join(l[k[0]:k[0] + 25] if k else l[-25:])

class Run:
    def __init__(self, pid, tier, seed, work):
        self.pid, self.tier, self.seed, self.work = pid, tier, seed, work
        self.viols, self.counters, self.samples = [], {}, []
        self.evals = 0; self.fixed = 0; self.hashes = set(); self.runs = []; self.ncrash = 0

    def part(self, exe, part, n, shards=NCPU, env=None, cpu=20, wall=600, wrapper=None):
        """One driver run over all shards; crashes and hangs become violations of the case that was running."""
        base = os.path.join(self.work, part)
        e = dict(os.environ); e.update(ENV); e.update(env or {})
        e['VERIF_WORK'] = self.work; e['VERIF_TIER'] = self.tier
        def shard(s):
            out, hs, prog, err = [base + '.%s.%d' % (x, s) for x in ('out', 'hash', 'prog', 'err')]
            start, restarts, res = 0, 0, []
            while True:
                for f in (out, prog):
                    if os.path.exists(f): os.unlink(f)
                cmd = (wrapper or []) + [exe, '--seed', str(self.seed), '--n', str(n), '--shard', str(s), '--shards', str(shards), '--start', str(start), '--cpu', str(cpu), '--out', out, '--hashes', hs, '--progress', prog]
                with open(err, 'wb') as ef:
                    try: rc = subprocess.run(cmd, stdout=ef, stderr=ef, env=e, timeout=wall, cwd=self.work).returncode
                    except subprocess.TimeoutExpired: rc = 'timeout'
                lines = []
                if os.path.exists(out):
                    with open(out, errors='replace') as f:
                        for l in f:
                            try: lines.append(json.loads(l))
                            except ValueError: pass
                done = any(l['t'] == 'sum' for l in lines)
                res += lines
                if rc == 0 and done: return res
                with open(err, 'rb') as f: text = f.read()[-60000:].decode(errors='replace')
                idx = 0
                if os.path.exists(prog):
                    with open(prog, 'rb') as f: b = f.read(8)
                    if len(b) == 8: idx = struct.unpack('<Q', b)[0]
                if rc == 'timeout': raise Inconclusive('%s: wall-clock watchdog fired in shard %d at case %d' % (part, s, idx - 1))
                if idx == 0:
                    if rc == 0: raise Inconclusive('%s: no summary from shard %d' % (part, s))
                    if not done: raise Inconclusive('%s: shard %d failed outside any case, rc %s\n%s' % (part, s, rc, text[-3000:]))
                    res.append(dict(t='viol', idx=0, key=crash_key(text, rc), msg='at exit: ' + text[-3000:], case='process exit')); return res
                if rc == 97:
                    # decide a hang only if the case alone, with a larger budget, hangs again
                    q = subprocess.run((wrapper or []) + [exe, '--seed', str(self.seed), '--n', str(n), '--case', str(idx - 1), '--cpu', str(3 * cpu)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e, cwd=self.work, timeout=wall)
                    if q.returncode == 97: res.append(dict(t='viol', idx=idx - 1, key='hang', msg='the case did not finish within %d s of CPU time, twice' % (3 * cpu), case=''))
                else:
                    res.append(dict(t='viol', idx=idx - 1, key=crash_key(text, rc), msg=crash_msg(text), case=''))
                start, restarts = idx, restarts + 1
                if restarts >= 4: return res
        with ThreadPoolExecutor(shards) as ex: allres = [f.result() for f in [ex.submit(shard, s) for s in range(shards)]]
        nev = 0
        for s, res in enumerate(allres):
            for l in res:
                if l['t'] == 'viol':
                    l['part'] = part; self.viols.append(l)
                else:
                    self.evals += l['evals']; nev += l['evals']; self.fixed = max(self.fixed, l['fixed'])
                    for k, c in l['counters'].items(): self.counters[k] = self.counters.get(k, 0) + c
                    if len(self.samples) < 6: self.samples += [part + ': ' + x for x in l['samples'][:1]]
            hs = base + '.hash.%d' % s
            if os.path.exists(hs):
                with open(hs, 'rb') as f: d = f.read()
                self.hashes.update(struct.unpack('<%dQ' % (len(d) // 8), d[:len(d) // 8 * 8]))
        self.runs.append(dict(part=part, cases=n, evaluations=nev))

    def violation(self, part, key, msg, case='', idx=0):
        self.viols.append(dict(t='viol', idx=idx, key=key, msg=msg, case=case, part=part))

def known_findings(pid):
    with open(os.path.join(V, 'known_findings.json')) as f: k = json.load(f)
    return [x for x in k['findings'] if x['property'] == pid]

def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--replay' in a: replay = json.load(open(a[a.index('--replay') + 1]))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if replay: seed, tier = replay['seed'], replay['tier']
    spec = SPECS[pid]
    t0 = time.time()
    work = os.path.join(BUILD, 'work-%s-%d' % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    os.chmod(work, 0o755)
    try:
        parts = [p for p in spec['parts'] if tier in p.get('tiers', ('quick', 'thorough'))]
        exes = build(sorted({b for p in parts for b in p.get('builds', [(p['variant'], p['driver'])])}, key=str))
        t1 = time.time()
        if replay:
            p = [p for p in parts if p['name'] == replay['part']][0]
            if 'custom' in p: print('part %s compares whole runs: rerun the check itself' % p['name']); return 0
            e = dict(os.environ); e.update(ENV); e.update(p.get('env', {})); e['VERIF_WORK'] = work; e['VERIF_TIER'] = tier
            r = subprocess.run(p.get('wrapper', []) + [exes[(p['variant'], p['driver'])], '--seed', str(seed), '--n', str(p['n'][tier]), '--case', str(replay['case']), '--verbose'] + ['--cpu', '60'], env=e, cwd=work)
            return 0 if r.returncode == 0 else 1
        run = Run(pid, tier, seed, work)
        for p in parts:
            if 'custom' in p: p['custom'](run, p, exes)
            else: run.part(exes[(p['variant'], p['driver'])], p['name'], p['n'][tier], shards=p.get('shards', NCPU), env=p.get('env'), cpu=p.get('cpu', 20), wall=p.get('wall', {'quick': 700, 'thorough': 6000})[tier], wrapper=p.get('wrapper'))
        return decide(run, spec, t0, t1 - t0)
    except Inconclusive as e:
        print('INCONCLUSIVE property=%s %s' % (pid, e))
        return 2
    finally:
        if '--keep' not in a: shutil.rmtree(work, ignore_errors=True)

def decide(run, spec, t0, build_s):
    pid = run.pid
    known, new = {}, {}
    kf = known_findings(pid)
    for v in run.viols:
        hit = None
        for k in kf:
            if k['key'] == v['key'] and re.search(k['case'], v.get('case') or '', re.S): hit = k; break
        if hit: known.setdefault(hit['id'], (hit, v))
        else: new.setdefault((v['part'], v['key']), v)
    for k, v in known.values(): print('KNOWN-FINDING: property=%s %s: %s' % (pid, k['id'], k['what']))
    missing = [c for c in spec.get('min', {}) if run.counters.get(c, 0) < spec['min'][c]]
    if run.evals == 0: missing.append('evaluations')
    ev = dict(property=pid, tier=run.tier, seed=run.seed, level=spec['level'], wall_s=round(time.time() - t0, 1), violations=len(new),
              coverage=dict(evaluations=run.evals, distinct_nontrivial=len(run.hashes), rule=spec['rule'], samples=run.samples[:6],
                            observed=dict(sorted(run.counters.items())), runs=run.runs, build_s=round(build_s, 1), known_findings_seen=sorted(known)),
              assumptions=spec.get('assumptions', []))
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    if new:
        rd = os.path.join(OUT, 'replays'); os.makedirs(rd, exist_ok=True)
        for (part, key), v in sorted(new.items())[:8]:
            f = os.path.join(rd, '%s-%s-%s.json' % (pid, re.sub(r'[^\w-]', '_', key)[:60], v['idx']))
            with open(f, 'w') as o: json.dump(dict(property=pid, part=part, seed=run.seed, tier=run.tier, case=v['idx'], key=key, msg=v['msg'], case_desc=v.get('case', '')), o, indent=1)
            print('  [%s] %s case %s: %s\n    %s' % (part, key, v['idx'], v['msg'][:2500 if key.startswith('crash') else 1200], (v.get('case') or '')[:800]))
            print('VIOLATION property=%s replay=%s' % (pid, f))
        return 1
    if missing:
        print('INCONCLUSIVE property=%s the run observed too little: %s' % (pid, ', '.join('%s=%d' % (c, run.counters.get(c, 0)) for c in missing)))
        return 2
    print('OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d build=%.0fs total=%.0fs' % (pid, run.tier, run.seed, run.evals, len(run.hashes), build_s, time.time() - t0))
    return 0

if __name__ == '__main__':
    sys.exit(main())
