#!/usr/bin/env python3
# plant.py ID...: confirm a planted bug of seeded/ID in a scratch copy of /repo: it applies, builds,
# the stable tests pass, demo.sh passes without and fails with it, and our check reports it.
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def build(d): return sh(f"sed 's#/repo#{d}#g' /opt/vp/build.sh | bash")
for i in sys.argv[1:]:
    s = f'{V}/seeded/{i}'; m = json.load(open(s + '/meta.json')); t = tempfile.mkdtemp(prefix='plant.'); d = t + '/repo'; res = []
    try:
        sh(f'cp -a /repo {d}; cp -a {s} {t}/demo')
        b = build(d); res.append(('clean build', b.returncode == 0))
        r = sh(f'timeout 300 bash {t}/demo/demo.sh', cwd=d); res.append(('demo clean', r.returncode == 0)); out = r.stdout[-300:]
        a = sh(f'git apply {s}/patch.diff', cwd=d); res.append(('applies', a.returncode == 0))
        b = build(d); res.append(('builds', b.returncode == 0))
        r = sh(f'timeout 300 bash {t}/demo/demo.sh', cwd=d); res.append(('demo fails', r.returncode != 0)); out += ' || ' + r.stdout[-300:]
        sh(f"sed 's#/repo#{d}#g' /opt/vp/test.sh > {t}/test.sh; sed -i 's#/opt/vp/build.sh#{t}/build.sh#' {t}/test.sh; sed 's#/repo#{d}#g' /opt/vp/build.sh > {t}/build.sh; bash {t}/test.sh {t}/out.json")
        want = json.load(open('/opt/vp/BASELINE.json')); got = json.load(open(t + '/out.json'))
        w = set(want['stable'] if isinstance(want, dict) else want); g = set(got.get('passed', got.get('pass', [])))
        res.append((f'tests ({len(w & g)}/{len(w)})', w <= g and len(w) > 100))
        if '--nocheck' not in os.environ.get('PLANT', ''):
            props = os.environ.get('PROPS', m['property']).split()
            for p in props:
                r = sh(f'timeout 1500 {V}/check {p}', cwd=V, env=dict(os.environ, REPO=d, VERIF_SEED='1', VERIF_TIER=os.environ.get('VERIF_TIER', 'quick')))
                hit = r.returncode == 1 and f'VIOLATION property={p}' in r.stdout
                res.append((f'check {p}', hit)); out += ' || ' + '\n'.join([l for l in r.stdout.splitlines() if 'VIOL' in l][:1] or r.stdout.splitlines()[-3:])[:300]
    finally: sh(f'rm -rf {t}')
    if os.environ.get("TL"): print(sorted(w - g))
    print(i, '; '.join(f'{k}: {"ok" if v else "NO"}' for k, v in res)); 
    if '-v' in os.environ.get('PLANT', '') or not all(v for _, v in res): print('   ', out)
    sys.stdout.flush()
