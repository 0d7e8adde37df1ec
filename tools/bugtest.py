#!/usr/bin/env python3
"""Judge planted bugs in a private mount namespace: bugtest.py [-a] [-n] ID...   (-a: run every check, -n: run no check)
Copies /repo, applies seeded/ID/patch.diff, builds, runs the tests, the demo (clean and patched) and the property's check."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def inner(i, checks):
    d = os.path.join(V, 'seeded', i)
    out = []
    sh = lambda c, t=300: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, cwd='/repo')
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    demo = tempfile.mkdtemp(prefix='demo-')
    for f in os.listdir(d):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json': shutil.copy(os.path.join(d, f), demo)
    r = sh('bash %s/demo.sh' % demo); out.append('demo clean rc=%d' % r.returncode)
    if r.returncode: out.append(r.stdout.decode(errors='replace')[-1500:])
    r = sh('git apply %s/patch.diff' % d); 
    if r.returncode: return out + ['PATCH DOES NOT APPLY ' + r.stdout.decode()]
    r = sh('bash /opt/vp/test.sh %s/t.json' % demo)
    t = json.load(open(demo + '/t.json'))
    bad = [x for x in base if x not in t['passed']]
    out.append('tests ' + ('ok' if not bad else 'BROKEN %s' % bad[:5]))
    if not t['passed']: out.append(r.stdout.decode(errors='replace')[-3000:])
    r = sh('bash %s/demo.sh' % demo); out.append('demo patched rc=%d' % r.returncode + ('' if r.returncode else '  DEMO DOES NOT FAIL ' + r.stdout.decode(errors='replace')[-800:]))
    shutil.rmtree(demo)
    for c in checks:
        e = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', VERIF_BUILD='/tmp/bt/build-%s' % i, VERIF_OUT='/tmp/bt/out-%s' % i)
        r = subprocess.run([sys.executable, V + '/check.py', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
        o = r.stdout.decode(errors='replace')
        out.append('%s rc=%d %s' % (c, r.returncode, 'CAUGHT ' + '; '.join(l.strip()[:150] for l in o.splitlines() if l.startswith('  [')) if r.returncode == 1 and 'VIOLATION property=%s ' % c in o else 'MISSED' if r.returncode == 0 else o[-600:]))
    shutil.rmtree('/tmp/bt/build-%s' % i, ignore_errors=True); shutil.rmtree('/tmp/bt/out-%s' % i, ignore_errors=True)
    return out
if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    if '--inner' in sys.argv:
        o = inner(a[0], a[1:]); print('\n  '.join(['== ' + a[0]] + o))
        ok = any(x == 'demo clean rc=0' for x in o) and 'tests ok' in o and any(x.startswith('demo patched rc=') and 'DEMO' not in x for x in o)
        if len(a) > 1 and ok:
            f = V + '/tools/seeded_results.json'; r = json.load(open(f)) if os.path.exists(f) else {}
            c = [x.split()[0] for x in o if ' CAUGHT ' in x]; n = [x.split()[0] for x in o if ' rc=' in x and x[0] == 'C' and ' CAUGHT ' not in x]
            keys = sorted({y.split('] ')[1].split(' case')[0] for x in o if ' CAUGHT ' in x for y in x.split('; ') if '] ' in y})
            r[a[0]] = ('caught by ' + ', '.join(c) + ' (' + ', '.join(keys[:3]) + ')' if c else '') + ('; ' if c and n else '') + ('missed by ' + ', '.join(n) if n else '')
            json.dump(r, open(f, 'w'), indent=1, sort_keys=True)
        sys.exit()
    if not a: a = sorted(os.listdir(V + '/seeded'))
    os.makedirs('/tmp/bt', exist_ok=True)
    for i in a:
        m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
        man = [c['property'] if 'property' in c else c['id'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
        checks = [] if '-n' in sys.argv else man if '-a' in sys.argv else [m['property']]
        copy = '/tmp/bt/%s' % i
        shutil.rmtree(copy, ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', copy], check=True)
        try: subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && exec %s %s --inner %s %s' % (copy, sys.executable, os.path.abspath(__file__), i, ' '.join(checks))])
        finally: shutil.rmtree(copy)
