#!/usr/bin/env python3
"""mkbug.py ID PROP FILE 'needs' 'breaks' < script  -- script: lines OLD<<<...>>>NEW<<<...>>> then MAIN<<<...>>> (body of main.go)
Makes /verif/seeded/ID from a textual edit of FILE and a demonstration program, after confirming it in a scratch copy."""
import sys, os, re, subprocess, shutil, json, tempfile
ID, PROP, FILE, needs, breaks = sys.argv[1:6]
txt = sys.stdin.read()
olds = re.findall(r'OLD<<<\n(.*?)\n?>>>\s*NEW<<<\n(.*?)\n?>>>', txt, re.S)
main = re.search(r'MAIN<<<\n(.*?)\n>>>', txt, re.S).group(1)
D = '/verif/seeded/' + ID
os.makedirs(D, exist_ok=True)
W = tempfile.mkdtemp(prefix='bug', dir='/tmp')
R = W + '/repo'
subprocess.run(['cp', '-a', os.environ.get('SRC','/repo'), R], check=True)
env = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', CGO_ENABLED='0')
def sh(c, cwd=R):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True)
def die(m):
    print('FAILED', ID, m); shutil.rmtree(D, ignore_errors=True); subprocess.run(['rm', '-rf', W]); sys.exit(1)
demo = '''#!/bin/bash
# runs main.go.txt against the module in the current directory
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
export HOME="${HOME:-/root}"
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
cp "$D/main.go.txt" "$T/main.go"
printf 'module demo\\ngo 1.21\\nrequire github.com/benedoc-inc/pdfer v0.0.0\\nreplace github.com/benedoc-inc/pdfer => %s\\n' "$R" > "$T/go.mod"
cd "$T" && go build -o demo . && timeout 60 ./demo
'''
open(D + '/demo.sh', 'w').write(demo); os.chmod(D + '/demo.sh', 0o755)
open(D + '/main.go.txt', 'w').write(main + '\n')
r = sh('bash %s/demo.sh' % D)
if r.returncode != 0: die('demo fails on the unchanged tree: ' + r.stdout[-1500:] + r.stderr[-1500:])
files = FILE.split(',')
for i, (o, n) in enumerate(olds):
    done = False
    for f in files:
        s = open(R + '/' + f).read()
        if s.count(o) == 1:
            open(R + '/' + f, 'w').write(s.replace(o, n)); done = True; break
        if s.count(o) > 1: die('text %d occurs %d times' % (i, s.count(o)))
    if not done: die('text %d not found' % i)
b = sh('go build ./...')
if b.returncode != 0: die('does not build: ' + b.stderr[:800])
d = sh('git diff -- ' + ' '.join(files)).stdout
open(D + '/patch.diff', 'w').write(d)
t = sh('go test ./... 2>&1 | grep -E "^(--- FAIL|FAIL)" | head -20')
base = json.load(open('/opt/vp/BASELINE.json'))
out = sh('go test ./... -json 2>/dev/null')
fails = set()
for l in out.stdout.splitlines():
    try: e = json.loads(l)
    except Exception: continue
    if e.get('Action') == 'fail' and e.get('Test'): fails.add(e['Package'] + '::' + e['Test'])
bl = json.dumps(base)
bad = [f for f in fails if f.split('::')[1] in bl]
if bad: die('breaks existing tests: ' + ', '.join(sorted(bad)[:6]))
r = sh('bash %s/demo.sh' % D)
if r.returncode == 0: die('demo passes with the change')
print('demo with change:', (r.stdout + r.stderr).strip()[-300:])
json.dump(dict(property=PROP, needs=needs, what_it_breaks=breaks), open(D + '/meta.json', 'w'), indent=1)
subprocess.run(['rm', '-rf', W])
print('OK', ID)
