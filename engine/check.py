"""Runs the static checks of one property against the current tree of /repo.

  check.py ID [--tier quick|thorough] [-v]

exit 0: every obligation held (or is a listed known finding)
exit 1: VIOLATION lines
exit 2: the analysis itself is broken (does not compile, nothing analysed,
        positive control not detected)
"""
import sys, os, re, json, time, shutil, subprocess, tempfile, signal, resource, multiprocessing as mp, multiprocessing.connection, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
EVID = os.environ.get('VP_EVIDENCE') or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence')
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
CXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'

CONFIG = {
 'serial': '#define NTHREADS 1\n',
 'threads': '#define ENABLE_THREADS\n#define FIELD_EXPRESSION_THREADS\n#define STENCIL_THREADS\n#define TILL_THREADS\n#define NTHREADS 4\n',
}
class Broken(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class Scratch:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix='vp_')
        for c, t in CONFIG.items():
            p = os.path.join(self.d, c, 'spatialops'); os.makedirs(p)
            open(os.path.join(p, 'SpatialOpsConfigure.h'), 'w').write(f'#ifndef VP_CONFIGURE_H\n#define VP_CONFIGURE_H\n{t}#define SOPS_REPO_DATE ""\n#define SOPS_REPO_HASH ""\n#endif\n')
        self.units = {}
    def close(self): shutil.rmtree(self.d, ignore_errors=True)
    def flags(self, config, defines=()):
        return ['-std=gnu++17', '-w', '-I' + os.path.join(VERIF, 'witness'), '-I' + os.path.join(self.d, config), '-I' + REPO] + ['-D' + d for d in defines]

def irx():
    p = os.path.join(VERIF, 'build', 'irx')
    r = sh([os.path.join(VERIF, 'build.sh')])
    if r.returncode: raise Broken('cannot build the IR exporter:\n' + r.stdout[-2000:])
    return p

def unit_json(sc, u):
    """compile a witness translation unit against /repo and export it."""
    sel = re.compile(u.get('select', '.'))
    src = os.path.join(VERIF, 'witness', u['file']); stem = re.sub(r'\W', '_', u['file'] + '_' + u.get('select', '') + '_' + u.get('config', 'serial') + '_' + u.get('mode', 'value') + ''.join(u.get('defines', ())))
    out = os.path.join(sc.d, stem + '.json')
    if stem in sc.units: return sc.units[stem]
    bc = os.path.join(sc.d, stem + '.bc')
    cmd = [CXX, '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only' if u.get('mode', 'value') == 'value' else '-g', '-c', '-emit-llvm'] + u.get('pre', []) + sc.flags(u.get('config', 'serial'), u.get('defines', ())) + u.get('cflags', []) + [src, '-o', bc]
    r = sh(cmd)
    if r.returncode: raise Broken(f'{u["file"]} does not compile against the current tree:\n' + r.stdout[:3000])
    cfg = os.path.join(sc.d, stem + '.cfg')
    base = os.path.splitext(src)[0]
    t = u.get('cfg')
    if t is None:
        t = open(base + '.cfg').read() if os.path.exists(base + '.cfg') else 'root ^(impl|spec|prove|bad|never)_\n'
    if u.get('mode', 'value') != 'value':
        open(cfg, 'w').write(t)
        r = sh([irx(), bc, out, u['mode'], cfg])
        if r.returncode: raise Broken(f'IR export of {u["file"]} failed:\n' + r.stdout[-2000:])
        os.unlink(bc); sc.units[stem] = out
        return out
    # the roots are exported and analysed in shards (independent call trees)
    nm = sh(['llvm-nm-18' if shutil.which('llvm-nm-18') else 'llvm-nm', '--defined-only', bc]).stdout
    groups = {}
    for n in sorted(set(re.findall(r'\s((?:impl|spec|prove|bad|never)_\w+)$', nm, re.M))):
        b = n.partition('_')[2]
        if sel.search(b): groups.setdefault(b, []).append(n)
    per = max(1, -(-len(groups) // (8 * u.get('waves', 3))))
    keys = sorted(groups); k = max(1, -(-len(keys) // per))
    shards = [sum((groups[x] for x in keys[i::k]), []) for i in range(k)] if keys else []
    rest = '\n'.join(l for l in t.split('\n') if not l.startswith('root '))
    sc.units[stem] = (bc, cfg, out, shards, rest)
    return sc.units[stem]

# ---------------------------------------------------------------- value-numbering obligations
def anchors(src):
    return dict(re.findall(r'VP_ANCHOR\(\s*(\w+)\s*,\s*"([^"]*)"', open(src).read()))
_mod = None
def _vn_child(q, job, limit):
    import vn, compare as C, gc
    gc.disable()
    kind, base, rules, facts = job
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    def boom(*a): raise TimeoutError()
    signal.signal(signal.SIGPROF, boom); signal.setitimer(signal.ITIMER_PROF, limit)
    t0 = time.time(); r = dict(base=base, kind=kind)
    ev = lambda n, assume=None: vn.FnEval(_mod['fn'][n], _mod, rules, assume).run()
    try:
        try:
            if kind == 'impl':
                c = C.compare_cases(ev, 'impl_' + base, 'spec_' + base)
            elif kind == 'control':
                a = ev('impl_' + base) if 'impl_' + base in _mod['fn'] else None
                if a is not None: c = C.compare(a, ev('bad_' + base))
                else: c = C.prove_true(ev('bad_' + base))
            else:
                c = C.prove_true(ev('prove_' + base))
            r.update(status='undecided' if c.undecided else 'proved', n=c.obligations, und=c.undecided, why=c.why or (f'{c.undecided} residual path(s) neither shown empty nor inhabited' if c.undecided else ''))
        except C.Mismatch as e:
            r.update(status='violated', msg=str(e), loc=e.loc, n=1)
        except vn.AnalysisError as e:
            r.update(status='undecided', why='unsupported: ' + str(e)[:300], n=1)
        except TimeoutError: r.update(status='undecided', why=f'no result within {limit}s', n=1)
        except MemoryError: r.update(status='undecided', why='memory limit', n=1)
        except RecursionError: r.update(status='undecided', why='recursion limit', n=1)
        except Exception as e:
            r.update(status='undecided', why='internal: ' + traceback.format_exc()[-600:], n=1)
    finally: signal.setitimer(signal.ITIMER_PROF, 0)
    r['t'] = round(time.time() - t0, 2)
    q.send(r); q.close()

DEADLINE = time.time() + 660      # a check must answer: what is not analysed by then is reported as undecided
def run_jobs(jobs, limit, sem):
    """each obligation in its own forked process => fresh interning tables, deterministic result."""
    ctx = mp.get_context('fork'); res = []; running = []
    jobs = list(jobs)
    while jobs or running:
        if jobs and time.time() > DEADLINE:
            res += [dict(base=j[1], kind=j[0], status='undecided', why='time budget of the check used up', n=1, t=0) for j in jobs]; jobs = []
        while jobs and sem.acquire(not running):
            j = jobs.pop(0)
            rx, tx = ctx.Pipe(False)
            p = ctx.Process(target=_vn_child, args=(tx, j, limit)); p.start(); tx.close()
            running.append((p, rx, j, time.time()))
        nr = []
        for p, rx, j, t in running:
            if rx.poll(0.01):
                try: res.append(rx.recv())
                except EOFError: res.append(dict(base=j[1], kind=j[0], status='undecided', why='analysis process died', n=1, t=0))
                p.join(); rx.close(); sem.release()
            elif time.time() - t > 3 * limit + 20 or time.time() > DEADLINE:
                p.kill(); p.join(); rx.close(); sem.release()
                res.append(dict(base=j[1], kind=j[0], status='undecided', why='killed after time limit', n=1, t=limit))
            else: nr.append((p, rx, j, t))
        running = nr
    return res

def _shard(q, bc, cfg, out, roots, rest, rules, limit, sem):
    """export one shard and analyse its obligations."""
    global _mod
    import vn, gc
    try:
        sem.acquire()
        try:
            open(cfg, 'w').write('root ^(' + '|'.join(roots) + ')$\n' + rest)
            r = sh([irx(), bc, out, 'value', cfg])
            if r.returncode: q.send(('broken', 'IR export failed:\n' + r.stdout[-2000:])); return
            m = vn.load(out); _mod = m; os.unlink(out)
            gc.collect(); gc.freeze()
        finally: sem.release()
        jobs = []
        for f in m['fn']:
            k, _, b = f.partition('_')
            if f not in roots: continue
            if k == 'impl':
                if 'spec_' + b not in m['fn']: q.send(('broken', f'no specification for {f}')); return
                jobs.append(('impl', b, rules, ()))
                if 'bad_' + b in m['fn']: jobs.append(('control', b, rules, ()))
            elif k == 'prove': jobs.append(('prove', b, rules, ()))
            elif k == 'bad' and 'impl_' + b not in m['fn']: jobs.append(('control', b, rules, ()))
        q.send(('ok', run_jobs(jobs, limit, sem), len(m['fn'])))
    except Exception: q.send(('broken', traceback.format_exc()[-1500:]))
    finally: q.close()

def vn_unit(sc, u, tier, log):
    bc, cfg, out, shards, rest = unit_json(sc, u)
    irx()
    base = os.path.splitext(os.path.join(VERIF, 'witness', u['file']))[0]
    rules = u.get('rules')
    if rules is None: rules = eval(open(base + '.rules').read()) if os.path.exists(base + '.rules') else []
    limit = u.get('limit', 60) * (3 if tier == 'thorough' else 1)
    ctx = mp.get_context('fork'); ncpu = min(8, os.cpu_count() or 4); sem = ctx.Semaphore(ncpu)
    res = []; nfun = 0; todo = list(enumerate(shards)); live = []
    while todo or live:
        while todo and len(live) < ncpu + 4:
            i, roots = todo.pop(0); rx, tx = ctx.Pipe(False)
            p = ctx.Process(target=_shard, args=(tx, bc, f'{cfg}.{i}', f'{out}.{i}', roots, rest, rules, limit, sem)); p.start(); tx.close()
            live.append((p, rx))
        mp.connection.wait([rx for p, rx in live])
        nl = []
        for p, rx in live:
            if rx.poll(0):
                try: r = rx.recv()
                except EOFError: r = ('broken', 'analysis shard died')
                p.join(); rx.close()
                if r[0] == 'broken':
                    for p2, _ in live: p2.terminate()
                    raise Broken(f'{u["file"]}: ' + r[1])
                res += r[1]; nfun += r[2]
            else: nl.append((p, rx))
        live = nl
    anc = anchors(os.path.join(VERIF, 'witness', u['file']))
    def anchor(b):
        c = [a for a in anc if b == a or b.startswith(a)]
        if c: return anc[max(c, key=len)]
        c = [a for a in anc if a in b]
        return anc[max(c, key=len)] if c else u.get('anchor', '')
    for r in res:
        if isinstance(r.get('loc'), list): r['loc'] = ' <- '.join(r['loc'])
        r['anchor'] = anchor(r['base']); r['unit'] = u['file'] + (':' + u['config'] if 'config' in u else '')
        r['name'] = ('bad_' if r['kind'] == 'control' else r['kind'] + '_') + r['base']
    return res, nfun

# ---------------------------------------------------------------- type-level witnesses
def type_unit(sc, u, tier):
    """cases in one file:  #ifdef PASS_name / FAIL_name  ... #endif ; each must (not) compile."""
    src = os.path.join(VERIF, 'witness', u['file']); text = open(src).read()
    names = []
    for n in re.findall(r'^#\s*(?:ifdef|elif defined)\s*\(?\s*((?:PASS|FAIL)_\w+)', text, re.M):
        if n not in names: names.append(n)
    sel = re.compile(u.get('select', '.')); names = [n for n in names if sel.search(n)]
    exp = dict(re.findall(r'//\s*EXPECT\s+(FAIL_\w+)\s*:\s*(.*)', text))
    anc = anchors(src)
    from concurrent.futures import ThreadPoolExecutor
    def one(n):
        t = time.time()
        r = sh([CXX, '-fsyntax-only', '-ferror-limit=20'] + sc.flags(u.get('config', 'serial'), tuple(u.get('defines', ())) + (n,)) + [src])
        ok = r.returncode == 0
        d = dict(base=n[5:], name=n, kind='type', unit=u['file'], n=1, t=round(time.time() - t, 2), anchor='')
        for a in sorted(anc, key=len):
            if n[5:].startswith(a): d['anchor'] = anc[a]
        errs = [l for l in r.stdout.split('\n') if ' error: ' in l]
        if n.startswith('PASS'):
            d['status'] = 'proved' if ok else 'violated'
            if not ok: d['msg'] = 'program that must be accepted is rejected by the compiler: ' + ' | '.join(errs[:3]); d['loc'] = (errs or [''])[0].split(' error')[0]
        else:
            if ok: d['status'] = 'violated'; d['msg'] = 'program that must be rejected compiles'
            else:
                d['status'] = 'proved'
                d['diag'] = errs[0][:200] if errs else ''
                if n in exp and not re.search(exp[n], r.stdout): d['status'] = 'undecided'; d['why'] = 'rejected, but for another reason: ' + (errs[0][:200] if errs else '')
        return d
    base = sh([CXX, '-fsyntax-only'] + sc.flags(u.get('config', 'serial'), tuple(u.get('defines', ()))) + [src])
    if base.returncode: raise Broken(f'{u["file"]} without any case does not compile:\n' + base.stdout[:2000])
    with ThreadPoolExecutor(8) as ex: return list(ex.map(one, names)), 1

# ---------------------------------------------------------------- main
def known(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding:\s+property=(\S+)\s+at=(\S+)\s+(.*)', l)
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3).strip()
    return out

def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('-v', action='store_true'); ap.add_argument('--only')
    a = ap.parse_args()
    t0 = time.time()
    import registry
    P = registry.PROPS[a.id]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sc = Scratch(); res = []; nfun = 0; broken = []
    try:
        for u in P['units']:
            if u.get('tier') == 'thorough' and a.tier != 'thorough': continue
            if a.only and 'select' not in u: u = dict(u, select=a.only)
            try:
                if u['engine'] == 'vn': r, n = vn_unit(sc, u, a.tier, None)
                elif u['engine'] == 'type': r, n = type_unit(sc, u, a.tier)
                elif u['engine'] == 'flow':
                    import importlib
                    r, n = importlib.import_module(u['module']).run(sc, u, a.tier, unit_json)
                res += r; nfun += n
            except Broken as e: broken.append(str(e))
    finally: sc.close()
    kn = known(a.id)
    rdir = os.path.join(EVID, 'replay', a.id)
    shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    viol = 0; nctl = 0; lost = []; lines = []; seenk = set()
    obl = [r for r in res if r['kind'] != 'control']
    for r in res:
        if a.v or (a.only and r['status'] != 'proved'):
            print(r['name'], r['status'], r.get('t'), (r.get('msg') or r.get('why') or '')[:700])
        if r['kind'] == 'control':
            nctl += 1
            if r['status'] == 'proved': lost.append(r['name'])
            continue
        if r['status'] != 'violated': continue
        key = r['unit'].split(':')[0] + ':' + r['name']
        if key in kn:
            if key not in seenk: print(f'KNOWN-FINDING: property={a.id} {kn[key]}')
            seenk.add(key); r['status'] = 'known'
            continue
        viol += 1
        fn = os.path.join(rdir, re.sub(r'\W+', '_', r['name'])[:100] + '.txt')
        with open(fn, 'w') as f:
            f.write(f'property: {a.id} {P["title"]}\nobligation: {r["name"]} in /verif/witness/{r["unit"]}\nrule: {P["rule"]}\nanchor: {r.get("anchor","")}\nlocation: {r.get("loc")}\nreport: {r.get("msg","")}\nre-run: python3 /verif/engine/check.py {a.id} --only \'^{re.escape(r["base"])}$\' -v\n')
        lines.append((r, fn))
    for r, fn in lines[:12]:
        print(f'{r.get("loc") or r.get("anchor") or r["unit"]}: [{a.id}] {r["name"]}: {str(r.get("msg"))[:600]}')
        print(f'VIOLATION property={a.id} replay={fn}')
    if lost and (len(lost) * 4 >= nctl or len(lost) > 3): broken.append('positive control(s) not detected: ' + ' '.join(lost))     # a single one may be met by a different, correct implementation
    und = [r for r in obl if r['status'] == 'undecided']
    floor = P.get('floor', 1)
    if not a.only:
        if len(obl) < floor: broken.append(f'only {len(obl)} obligations were generated, expected at least {floor}')
    ev = dict(property=a.id, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level=P['level'], wall_s=round(time.time() - t0, 2), violations=viol,
      assumptions=P.get('assumptions', []) + registry.COMMON_ASSUMPTIONS.get(P['kind'], []),
      coverage=dict(obligations=len(obl), discharged=sum(r['status'] == 'proved' for r in obl), comparisons=sum(r.get('n', 0) for r in obl),
        positive_controls=sum(r['kind'] == 'control' for r in res), functions_exported=nfun,
        undetected_controls=lost, undecided=[dict(name=r['name'], why=r.get('why', '')[:200]) for r in und][:40], known_findings=sorted(seenk),
        rule=P['rule'], explanation=P['rule'], checker_cmd=f'python3 /verif/engine/check.py {a.id} --tier {a.tier}',
        trusted_base=registry.TRUSTED.get(P['kind'], []),
        samples=[dict(obligation=r['name'], unit=r['unit'], anchor=r.get('anchor', ''), status=r['status'], comparisons=r.get('n'), seconds=r.get('t'), **({'diag': r['diag']} if r.get('diag') else {})) for r in obl][:400]))
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, a.id + '.json'), 'w'), indent=1)
    print(f'{a.id}: {len(obl)} obligations, {ev["coverage"]["discharged"]} discharged, {len(und)} undecided, {viol} violated, {ev["wall_s"]}s')
    for r in und[:10]: print(f'  undecided: {r["name"]}: {r.get("why","")[:300]}')
    if viol: sys.exit(1)
    if broken:
        for b in broken: print('ANALYSIS BROKEN: ' + b)
        sys.exit(2)
    sys.exit(0)
if __name__ == '__main__': main()
