"""Run checks against planted bugs in a scratch copy:  runseeds.py [-a] [ID ...]   (-a: all claimed checks, not only the bug's)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/sr'
rules = json.load(open(V + '/analysis/rules.json'))
a = sys.argv[1:]
allp = '-a' in a
ids = [x for x in a if not x.startswith('-')] or sorted(os.listdir(V + '/seeded'))
if not os.path.exists(W):
    subprocess.run(['git', 'clone', '-q', '/repo', W])
    subprocess.run('cp /repo/Cargo.lock .', shell=True, cwd=W)
subprocess.run('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', shell=True, cwd=W)
env = dict(os.environ, VERIF_REPO=W)
hit = n = 0
for i in ids:
    d = V + '/seeded/' + i
    p = json.load(open(d + '/meta.json'))['property']
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=W)
    r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=W, capture_output=True, text=True)
    if r.returncode:
        print(i, 'PATCH DOES NOT APPLY', r.stderr[:200]); continue
    for q in (list(rules) if allp else [p]):
        if q not in rules:
            print('%-34s %s (not claimed)' % (i, q)); continue
        r = subprocess.run(['python3', V + '/check.py', q], cwd=V, env=env, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('  ')]
        if q == p:
            n += 1
            hit += r.returncode == 1
        if q == p or r.returncode:
            print('%-34s %s rc=%d %s' % (i, q, r.returncode, (v or r.stdout.strip().splitlines() or ['?'])[0][:230]), flush=True)
subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=W)
print(hit, 'of', n, 'caught')
