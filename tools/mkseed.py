"""write /verif/seeded/<id>/ from a declaration; run `python3 tools/mkseed.py [ids]`; `-v` validates in a scratch copy, `-c` runs the property's check on it."""
import os, sys, json, subprocess, shutil, glob, re
V = '/verif'; R = '/repo'
DEMO = '''#!/bin/bash
# builds demo.cpp against the current tree and runs it
here="$(cd "$(dirname "$0")" && pwd)"; cfg=%s; repo="$(pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
S="$repo/spatialops"; src="$S/structured/MemoryPool.cpp $S/structured/Grid.cpp $S/structured/MemoryWindow.cpp $S/structured/GhostData.cpp $S/structured/onedim/LagrangePoly.cpp"
[ $cfg = threads ] && src="$src $S/ThreadPool.cpp"
grep -q build_stencils "$here/demo.cpp" && src="$src $S/structured/stencil/StencilBuilder.cpp"
( cd "$t" && printf '%%s\n' $src "$here/demo.cpp" | xargs -P 8 -n 1 g++ -std=gnu++17 -w -O0 %s-I"$repo" -I"$repo/_build/$cfg/config" -I"$S" -c && g++ *.o -lboost_thread -lboost_system -lboost_date_time -lpthread -o demo ) || exit 3
cd "$t" && timeout 120 ./demo
'''
SEEDS = {}
def seed(id, prop, edits, needs, breaks, demo, cfg='serial', flags='', script=None):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, cfg=cfg, flags=flags, script=script)
def write(id):
    s = SEEDS[id]; d = f'{V}/seeded/{id}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = f'/tmp/mkseed_{os.getpid()}'; shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', '-C', R, 'worktree', 'add', '-q', '--detach', w, 'HEAD'], check=True)
    try:
        for f, old, new in s['edits']:
            p = f'{w}/{f}'; t = open(p, newline='').read()
            n = 1
            if isinstance(old, tuple): old, n = old
            parts = t.split(old)
            if len(parts) < 2: raise SystemExit(f'{id}: text not found in {f}: {old!r}')
            if len(parts) > 2 and n == 1 and not isinstance(s['edits'][0][1], tuple): raise SystemExit(f'{id}: text occurs {len(parts)-1} times in {f}: {old!r}')
            t = old.join(parts[:n]) + new + old.join(parts[n:])
            open(p, 'w', newline='').write(t)
        diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True).stdout
        open(f'{d}/patch.diff', 'wb').write(diff)
    finally:
        subprocess.run(['git', '-C', R, 'worktree', 'remove', '--force', w])
    if s['demo']: open(f'{d}/demo.cpp', 'w').write(s['demo'])
    open(f'{d}/demo.sh', 'w').write(s['script'] or DEMO % (s['cfg'], s['flags'] + ' ' if s['flags'] else '')); os.chmod(f'{d}/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
def demo_clean(id):
    return subprocess.run(['bash', f'{V}/seeded/{id}/demo.sh'], cwd=R, capture_output=True, text=True)
def check(id, only=None):
    p = f'{V}/seeded/{id}/patch.diff'
    subprocess.run(['git', '-C', R, 'apply', p], check=True)
    try:
        r = subprocess.run(['python3', f'{V}/engine/check.py', SEEDS[id]['prop']] + (['--only', only] if only else []), capture_output=True, text=True)
        dm = demo_clean(id)
    finally: subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
    return r, dm
for f in sorted(glob.glob(f'{V}/tools/seeds_*.py')): exec(open(f).read())
if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')] or list(SEEDS)
    for i in a:
        if '-n' not in sys.argv: write(i)
        d = demo_clean(i); print(i, 'demo on clean tree:', d.returncode, (d.stdout + d.stderr)[-300:] if d.returncode else '')
        if '-t' in sys.argv:
            subprocess.run(['git', '-C', R, 'apply', f'{V}/seeded/{i}/patch.diff'], check=True)
            try: subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/seed_out.json'], capture_output=True)
            finally: subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
            o = json.load(open('/tmp/seed_out.json')); b = json.load(open('/opt/vp/BASELINE.json')); b = b.get('passed') or b.get('stable') or b.get('tests') if isinstance(b, dict) else b
            print('   tests lost:', sorted(set(b) - set(o['passed']))[:5], len(o['passed']))
        if '-c' in sys.argv:
            r, dm = check(i)
            print('   demo with patch:', dm.returncode, (dm.stdout + dm.stderr)[-200:].strip().replace('\n', ' | ')); print('   check exit', r.returncode, [l[:160] for l in r.stdout.split('\n') if 'VIOLATION' in l or 'BROKEN' in l or 'obligations' in l or 'undecided' in l][:5])
