"""Gated value numbering of the SSA exported by irx (mode `value`)."""
import re, json, zlib
from fractions import Fraction
from terms import *
import terms as TM

DEADKIND = [('vp_reject', 'reject'), ('vp_resume', 'throw'), ('__assert_fail', 'assert'), ('__cxa_throw', 'throw'), ('std::__throw', 'throw'),
            ('abort', 'abort'), ('terminate', 'abort'), ('_throw', 'throw'), ('exit', 'abort'), ('llvm.trap', 'abort')]
FPFN = {'sin', 'cos', 'tan', 'exp', 'tanh', 'log', 'log10', 'erf', 'erfc', 'sqrt', 'pow', 'fabs', 'floor', 'ceil', 'round', 'lround',
        'fmod', 'fmax', 'fmin', 'atan', 'sinh', 'cosh', 'acos', 'asin', 'exp2', 'log2', 'cbrt', 'trunc', 'abs'}

def partof(v, off, size, desc):
    """bytes [off, off+size) of the stored value v (little endian); folded where v's cases are integer constants
    (only ever asked of integer cells: the compiler merges adjacent bool/int members into one wider store)."""
    def f(l):
        c = pconst(l) if isinstance(l, Poly) else None
        if c is None or off is None or isinstance(c, Fraction) and c.denominator != 1: return pvar(atom(desc, (v,)))
        return const((int(c) >> (8 * off)) & ((1 << (8 * size)) - 1))
    if v.leaf is None and all(isinstance(l, Poly) and pconst(l) is not None for l in leaves(v)) or v.leaf is not None: return ap1(('part', off, size, v.uid), f, v)
    return leaf(pvar(atom(desc, (v,))))

class Obj:
    __slots__ = ('cells', 'regions', 'dflt', 'log')
    def __init__(s, dflt): s.cells = {}; s.regions = []; s.dflt = dflt; s.log = ()
    def copy(s):
        o = Obj(s.dflt); o.cells = dict(s.cells); o.regions = list(s.regions); o.log = s.log
        return o

class Entry:
    """a store at a symbolic offset or a loop of stores."""
    __slots__ = ('kind', 'guard', 'off', 'size', 'val', 'n', 'cnt', 'items', 'loc', 'name', 'args')
    def key(s):
        if s.kind == 'store': return ('st', s.guard, s.off, s.size, s.val)
        if s.kind == 'call': return ('cl', s.guard, s.name, s.args)
        return ('fa', s.guard, s.n, s.cnt, tuple(i.key() for i in s.items))
def mk_store(g, off, size, val, loc):
    e = Entry(); e.kind = 'store'; e.guard = g; e.off = off; e.size = size; e.val = val; e.loc = loc; return e
def mk_call(g, name, args, loc):
    e = Entry(); e.kind = 'call'; e.guard = g; e.name = name; e.args = args; e.loc = loc; return e
def mk_forall(g, n, cnt, items, loc):
    e = Entry(); e.kind = 'forall'; e.guard = g; e.n = n; e.cnt = cnt; e.items = items; e.loc = loc; return e

UNROLL = 4
def const_count(N):
    ls = list(leaves(N))
    return pconst(ls[0]) if len(ls) == 1 and isinstance(ls[0], Poly) else None

class State:
    __slots__ = ('mem',)
    def __init__(s, mem=None): s.mem = mem if mem is not None else {}
    def copy(s): return State(dict(s.mem))

class Result:
    pass

def is_local(base): return base[0] in ('alloca',)

class FnEval:
    def __init__(self, fn, mod, rules=(), assume=None, noalias=True, argnames=None, verbose=False):
        self.f = fn; self.mod = mod; self.rules = [(re.compile(r), k) for r, k in rules]
        self.blocks = {b['id']: b for b in fn['blocks']}
        self.entry = fn['blocks'][0]['id']
        self.env = {}
        self.newcount = 0
        self.verbose = verbose
        self.calls_seen = {}
        self.locs = set()
        self.dead = {}          # kind -> guard (function level)
        self.deadloc = {}
        self.nops = 0
        self.argnames = argnames; self.curloc = None; self.heap = any(k == 'heap' for _, k in self.rules)
        self.assume = Ctx(assume[0]) if assume else Ctx(); self.argsub = assume[1] if assume else {}
        self.build_cfg()
    # ------------------------------------------------------------ CFG
    def build_cfg(self):
        self.succ = {}
        for b in self.f['blocks']:
            t = b['insts'][-1]; s = []
            if t['op'] == 'br': s = [t['t'], t['f']] if 'cond' in t else [t['to']]
            elif t['op'] == 'switch': s = [t['default']] + [c[1] for c in t['cases']]
            self.succ[b['id']] = s
        reach = set(); st = [self.entry]
        while st:
            x = st.pop()
            if x in reach: continue
            reach.add(x); st += self.succ[x]
        self.reach = reach
        self.pred = {x: [] for x in reach}
        for x in reach:
            for y in self.succ[x]: self.pred[y].append(x)
        # blocks that can reach a return
        live = set(); st = [x for x in reach if self.blocks[x]['insts'][-1]['op'] == 'ret']
        while st:
            x = st.pop()
            if x in live: continue
            live.add(x); st += self.pred[x]
        # dead ends of different kinds behind one branch (an assertion, then a throw): follow the paths to each
        kinds = {}
        for x in reach:
            if x in live: continue
            for k in self.blockkinds(x):
                if k == 'abort': continue
                seen2 = kinds.setdefault(k, set()); st = [x]
                while st:
                    y = st.pop()
                    if y in seen2 or y in live: continue
                    seen2.add(y); st += self.pred[y]
        mixed = {x for x in reach if x not in live and sum(1 for v in kinds.values() if x in v) > 1}
        live |= mixed
        self.live = live
        # dominators & loops on live blocks
        order = []; seen = set()
        def dfs(x):
            stack = [(x, iter(self.succ[x]))]; seen.add(x)
            while stack:
                y, it = stack[-1]
                for z in it:
                    if z in live and z not in seen:
                        seen.add(z); stack.append((z, iter(self.succ[z]))); break
                else:
                    order.append(y); stack.pop()
        if self.entry in live: dfs(self.entry)
        self.rpo = order[::-1]
        idx = {b: i for i, b in enumerate(self.rpo)}
        self.rpoidx = idx
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]: a = idom[a]
                                while idx[c] > idx[a]: c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new: idom[b] = new; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == self.entry: return False
                b = idom[b]
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if s in live and s in idx and idx[s] <= idx[b]:
                    if not dom(s, b): raise AnalysisError('irreducible control flow in ' + self.f['dem'])
                    body = self.loops.setdefault(s, set([s]))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st += [p for p in self.pred[x] if p in live]
        self.loopof = {}
        for h, body in sorted(self.loops.items(), key=lambda kv: -len(kv[1])):
            for x in body: self.loopof.setdefault(x, []).append(h)   # outer -> inner
    # ------------------------------------------------------------ values
    def val(self, o, ty=None):
        if isinstance(o, int):
            v = self.env.get(o)
            if v is None: raise AnalysisError(f'value %{o} not available in {self.f["dem"]}')
            return v
        k = o[0]
        if k == 'i':
            if o[1] == 1: return T if o[2] != '0' else F
            return leaf(const(int(o[2])))
        if k == 'f': return leaf(fconst(float.fromhex(o[2]) if o[2] not in ('inf', '-inf', 'nan', '-nan') else o[2]))
        if k == 'null': return leaf(mkptr(('null',), ZERO))
        if k == 'undef': return UN
        if k == 'fn': return leaf(mkfn(o[1], o[2]))
        if k == 'g': return leaf(mkptr(('g', o[1]), ZERO))
        if k == 'gepc':
            b = self.val(o[1])
            return ap1(('poff', o[2]), lambda p: mkptr(p.base, padd(p.off, const(o[2]))) if isinstance(p, Ptr) else p, b)
        if k == 'zero': return leaf(ZERO)
        if k == 'ce':
            if o[1] in ('inttoptr', 'ptrtoint', 'bitcast'): return self.val(o[2])
        return leaf(pvar(atom(('const', str(o)))))
    # ------------------------------------------------------------ memory
    def obj(self, st, base):
        o = st.mem.get(base)
        if o is None:
            if base[0] == 'alloca' or base[0] == 'new': o = Obj(('undef',))
            else: o = Obj(('mem', base))
            st.mem[base] = o
        return o
    def dflt_read(self, ver, base, off, size, ty):
        if ver == ('undef',): return UN
        if ver == ('zero',):
            return leaf(mkptr(('null',), ZERO)) if ty == 'ptr' else leaf(ZERO)
        a = atom(('ld', ver, off, ty), (off, ver) if isinstance(ver, tuple) else (off,))
        return self.typed_atom(a, ty)
    def typed_atom(self, a, ty):
        if ty == 'ptr': return leaf(mkptr(('sym', a), ZERO))
        if ty == 'i1': return bvar(batom(('b', pvar(a)), (pvar(a),)))
        return leaf(pvar(a))
    def read(self, st, p, size, ty):
        if not isinstance(p, Ptr): return UN
        base, off = p.base, p.off
        if base[0] == 'g':
            v = self.global_init(base[1], off, ty)
            if v is not None: return v
        if self.heap and base[0] == 'new': self.use(st, p)
        o = self.obj(st, base)
        c = pconst(off)
        # symbolic stores shadow cells
        def below():
            if c is not None:
                x = o.cells.get(c)
                if x is not None:
                    if x[0] == size: return x[1]
                    return partof(x[1], 0, size, ('part', x[1], x[0], size))
                # overlapping cells of other sizes
                for co, (cs, cv) in o.cells.items():
                    if co < c + size and c < co + cs:
                        if co <= c and c + size <= co + cs and cv.leaf is not None and pconst(cv.leaf) == 0 if isinstance(cv.leaf, Poly) else False:
                            return leaf(ZERO)
                        return partof(cv, c - co if c + size <= co + cs else None, size, ('part', cv, c - co, size))
                for lo, hi, ver, sh in reversed(o.regions):
                    if lo <= c and c + size <= hi:
                        return self.dflt_read(ver, base, const(c + sh), size, ty)
                return self.dflt_read(o.dflt, base, off, size, ty)
            if o.cells:
                # symbolic index into known cells: enumerate when small and regular
                ks = sorted(o.cells)
                if all(o.cells[k][0] == size for k in ks) and len(ks) <= 16 and o.dflt == ('undef',) and not o.regions:
                    r = UN
                    for k in ks: r = ite(eq0(psub(off, const(k))), o.cells[k][1], r)
                    return r
                ver = ('objv', o.dflt, tuple((k, o.cells[k][1]) for k in ks))
                OBJV_SZ[ver] = {k: o.cells[k][0] for k in ks}
                a = atom(('ld', ver, off, ty), (off, ver))
                return self.typed_atom(a, ty)
            if o.regions:
                ver = ('objr', o.dflt, tuple(o.regions))
                a = atom(('ld', ver, off, ty), (off,)); return self.typed_atom(a, ty)
            return self.dflt_read(o.dflt, base, off, size, ty)
        log = o.log
        def go(i):
            if i < 0: return below()
            e = log[i]
            if e.kind == 'store':
                d = pconst(psub(e.off, off))
                if d == 0 and e.size == size: return ite(e.guard, e.val, go(i - 1)) if e.guard is not T else e.val
                if d is not None and (d >= size or d <= -e.size): return go(i - 1)
                if d is None:
                    dd = eq0(psub(e.off, off))
                    ctx = self.curctx
                    pr = prune(dd, ctx)
                    if pr is F and self.aligned(e.off, off, size): return go(i - 1)
            cl = self.curctx
            def pk(x):
                if x.guard is T or len(g_size(x.guard)) > 400: return x.key()
                pg = prune(x.guard, cl, [200])
                return x.key() if pg is x.guard else with_guard(x, pg).key()
            key = tuple(pk(x) for x in log[:i + 1])
            ver = ('logv', o.dflt, key, tuple((k, v[1]) for k, v in sorted(o.cells.items())))
            a = atom(('ld', ver, off, ty), (off, key))
            return self.typed_atom(a, ty)
        return go(len(log) - 1)
    def aligned(self, a, b, size):
        d = psub(a, b)
        return all(not isinstance(c, Fraction) and c % size == 0 for _, c in d.t)
    def global_init(self, name, off, ty):
        g = self.mod['gl'].get(name)
        if g and g.get('const') and pconst(off) == 0:
            if 'init' in g: return leaf(const(int(g['init'])))
            if 'finit' in g: return leaf(fconst(float.fromhex(g['finit'])))
        return None
    def wobj(self, st, base):
        o = self.obj(st, base).copy(); st.mem[base] = o
        return o
    def die(self, kind, g, loc):
        if g is F: return
        self.dead[kind] = bor(self.dead.get(kind, F), g); self.deadloc.setdefault(kind, []).append((g, loc))
    def use(self, st, p, cond=T):
        """an access through p: the block must still be alive"""
        o = st.mem.get(('freed', p.base[1]))
        if o is None or 0 not in o.cells: return
        dead = ap1('freed1', lambda x: x is ONE, o.cells[0][1])
        self.die('uaf', prune(band(band(self.curguard, cond), dead), self.curctx, [200]), self.curloc)
    def write(self, st, p, size, val, guard, loc):
        """guard: condition of this pointer leaf within the current block (T normally)."""
        if not isinstance(p, Ptr): return
        base, off = p.base, p.off
        if self.heap and base[0] == 'new': self.use(st, p, guard)
        c = pconst(off)
        if c is not None:
            old = self.obj(st, base)
            if old.log and any(self.may_overlap(e, off, size) for e in old.log):
                o = self.wobj(st, base)
                o.log = o.log + (mk_store(band(guard, self.curguard), off, size, val, loc),)
                return
            if guard is not T: val = ite(guard, val, self.read(st, p, size, self.sizety(val, size)))
            o = self.wobj(st, base)
            for k in [k for k, (s, v) in o.cells.items() if k < c + size and c < k + s and k != c]:
                s, v = o.cells.pop(k)
                # partially overwritten cell: split into unknown remains
                if v.leaf is not None and isinstance(v.leaf, Poly) and pconst(v.leaf) == 0:
                    for q in range(k, k + s, size):
                        if q != c: o.cells[q] = (size, leaf(ZERO))
                else:
                    o.cells[k] = (s, leaf(pvar(atom(('partw', v, c - k, size, val), (v, val)))))
            o.cells[c] = (size, val)
        else:
            o = self.wobj(st, base)
            o.log = o.log + (mk_store(band(guard, self.curguard), off, size, val, loc),)
    def sizety(self, val, size):
        l = leaves(val)
        if any(isinstance(x, Ptr) for x in l): return 'ptr'
        return {1: 'i8', 2: 'i16', 4: 'i32', 8: 'i64'}.get(size, 'i%d' % (size * 8))
    def may_overlap(self, e, off, size):
        if e.kind != 'store': return True
        d = pconst(psub(e.off, off))
        if d is None: return not (prune(eq0(psub(e.off, off)), self.curctx) is F and self.aligned(e.off, off, size))
        return not (d >= size or d <= -e.size)
    def snapshot(self, st, base, lo=None):
        o = self.obj(st, base)
        return ('snap', o.dflt, tuple(o.regions), tuple((k, v[1]) for k, v in sorted(o.cells.items())), tuple(x.key() for x in o.log))
    def copy_mem(self, st, dst, src, n, guard, loc):
        if not (isinstance(dst, Ptr) and isinstance(src, Ptr)): return
        dc, sc = pconst(dst.off), pconst(src.off)
        if dc is None or sc is None or n is None:
            so = self.obj(st, src.base)
            if so.log:
                ver = ('objsnap', self.snapshot(st, src.base))
            else:
                ver = ('objv', so.dflt, tuple((k, v[1]) for k, v in sorted(so.cells.items())))
            val = leaf(pvar(atom(('blob', ver, src.off, src.base if src.base[0] != 'alloca' else 'local'), (ver, src.off))))
            if dc is None or n is None or True:
                o = self.wobj(st, dst.base)
                if dc is not None and n is not None:
                    for k in [k for k, (s, v) in o.cells.items() if dc <= k < dc + n]: o.cells.pop(k)
                    # element-wise view of the copied blob
                    o.regions = [r for r in o.regions if not (dc <= r[0] and r[1] <= dc + n)] + [(dc, dc + n, ('blobv', ver, src.off), -dc)]
                else:
                    o.log = o.log + (mk_store(band(guard, self.curguard), dst.off, n or 1, val, loc),)
            return
        so = self.obj(st, src.base)
        o = self.wobj(st, dst.base)
        if guard is not T:
            raise AnalysisError('conditional memcpy')
        for k in [k for k, (s, v) in o.cells.items() if k < dc + n and dc < k + s]: o.cells.pop(k)
        newreg = []
        for lo, hi, ver, sh in o.regions:
            if lo < dc: newreg.append((lo, min(hi, dc), ver, sh))
            if hi > dc + n: newreg.append((max(lo, dc + n), hi, ver, sh))
        add = [(dc, dc + n, so.dflt, sc - dc)]
        for lo, hi, ver, sh in so.regions:
            l, h = max(lo, sc), min(hi, sc + n)
            if l < h: add.append((l - sc + dc, h - sc + dc, ver, sh + sc - dc))
        o.regions = newreg + add
        for k, (s, v) in so.cells.items():
            if sc <= k and k + s <= sc + n: o.cells[k - sc + dc] = (s, v)
        if so.log:
            for e in so.log:
                if e.kind != 'store': 
                    o.log = o.log + (e,)
                    continue
                o.log = o.log + (mk_store(e.guard, padd(e.off, const(dc - sc)), e.size, e.val, e.loc),)
    # ------------------------------------------------------------ merging
    def merge(self, edges):
        """edges: [(guard, State)] -> State (relative to OR of guards)"""
        if len(edges) == 1: return edges[0][1].copy()
        total = F
        for g, s in edges: total = bor(total, g)
        bases = []
        for g, s in edges:
            for b in s.mem:
                if b not in bases: bases.append(b)
        out = {}
        for b in bases:
            os = [s.mem.get(b) for g, s in edges]
            if all(o is os[0] for o in os): out[b] = os[0]; continue
            os = [self.obj(s, b) for g, s in edges]
            r = Obj(os[0].dflt)
            if any(o.dflt != r.dflt or o.regions != os[0].regions for o in os):
                # only acceptable when the cells cover everything that is read later
                if b[0] in ('alloca', 'new', 'freed'):
                    nz = [o for o in os if o.dflt != ('undef',) or o.regions]
                    if all(o.dflt == ('undef',) for o in os) and all(x.regions == nz[0].regions for x in nz):
                        r.regions = list(nz[0].regions); r.dflt = ('undef',)
                    else:
                        r.dflt = ('mrg', tuple((restrict(g, total), o.dflt, tuple(o.regions)) for (g, s), o in zip(edges, os)))
                else:
                    r.dflt = ('mrg', tuple((restrict(g, total), o.dflt, tuple(o.regions)) for (g, s), o in zip(edges, os)))
            else:
                r.regions = list(os[0].regions)
            keys = sorted(set(k for o in os for k in o.cells))
            for k in keys:
                sz = [o.cells[k][0] for o in os if k in o.cells]
                if len(set(sz)) > 1: raise AnalysisError('merge of cells with different sizes')
                tyv = [o.cells[k][1] for o in os if k in o.cells][0]
                v = None
                for (g, s), o in zip(edges, os):
                    x = o.cells[k][1] if k in o.cells else self.read(s, mkptr(b, const(k)), sz[0], self.sizety(tyv, sz[0]))
                    v = x if v is None else ite(restrict(g, total), x, v)
                r.cells[k] = (sz[0], v)
            log = list(os[0].log)
            for o in os[1:]:
                for e in o.log:
                    if not any(e is x for x in log): log.append(e)
            r.log = tuple(log)
            out[b] = r
        return State(out)
    # ------------------------------------------------------------ regions
    def run(self):
        st = State()
        for i, a in enumerate(self.f['args']):
            nm = (self.argnames or {}).get(i) or f'a{i}'
            at = atom(('arg', nm))
            if at in self.argsub: self.env[a['id']] = leaf(self.argsub[at]); continue
            if a['ty'] == 'ptr': self.env[a['id']] = leaf(mkptr(('sym', at), ZERO))
            elif a['ty'] == 'i1': self.env[a['id']] = bvar(batom(('arg', nm)))
            else: self.env[a['id']] = leaf(pvar(at))
            if a.get('byval'): pass
        self.effects = []
        self.curctx = self.assume; self.curguard = T
        rets = []
        self.depth = 0
        self.unrolling = set()
        if self.entry not in self.live:
            r = Result(); r.ret = None; r.never = True
            k, loc = self.deadkind(self.entry)
            if k not in ('hang', 'throw', 'assert'): raise AnalysisError(f'{self.f["dem"]} never returns')
            self.adddead(k, T, loc)
            r.dead = self.dead; r.deadloc = self.deadloc; r.effects = self.effects; r.ret = None; r.state = st; r.retguard = F; r.ev = self
            return r
        body = set(self.rpo)
        exits = self.region(self.entry, body, None, st, T, self.assume, rets)
        r = Result()
        tot = F
        for g, v, s in rets: tot = bor(tot, g)
        r.retguard = tot
        r.ret = None
        for g, v, s in rets:
            if v is not None: r.ret = v if r.ret is None else ite(restrict(g, tot), v, r.ret)
        r.state = self.merge([(g, s) for g, v, s in rets]) if rets else st
        if not rets: r.never = True
        r.effects = self.effects
        if self.heap:           # every block released by the end
            for b, o in r.state.mem.items():
                if b[0] == 'freed': self.die('leak', band(tot, ap1('live1', lambda x: x is ZERO, o.cells[0][1])), None)
            self.heap = False
        r.dead = self.dead; r.deadloc = self.deadloc
        r.ev = self
        return r
    def region(self, entry, body, loophdr, st0, g0, ctx, rets):
        """evaluate an acyclic region (inner loops collapsed).
        returns list of edges leaving the region [(from,to,guard,state)];
        for loops, back edges are returned with to == loophdr."""
        edges_in = {entry: [(None, g0, st0)]}
        out = []
        done = set()
        order = [b for b in self.rpo if b in body]
        depth_here = len(self.loopof.get(loophdr, [])) if loophdr is not None else 0
        inner = {}
        for h, bd in self.loops.items():
            if h in body and h != loophdr:
                lo = self.loopof[h]
                # immediate child loop of this region
                par = lo[:lo.index(h)]
                if (loophdr is None and not par) or (loophdr is not None and par and par[-1] == loophdr):
                    inner[h] = bd
        skip = set()
        for bd in inner.values(): skip |= bd
        for b in order:
            if b in skip and b not in inner: continue
            ins = edges_in.get(b)
            if not ins: continue
            g = F
            for _, eg, s in ins: g = bor(g, eg)
            if len(g_size(g)) < 4000:
                g = prune(g, ctx, [600])
            if g is F: continue
            st = self.merge([(eg, s) for _, eg, s in ins])
            bctx = Ctx(ctx.lits + tuple(facts_of(g)))
            if not bctx.feasible(): continue
            if b in inner:
                exits = self.loop(b, inner[b], ins, st, g, bctx)
                for fr, to, eg, es, defs in exits:
                    if to in body and to != loophdr: edges_in.setdefault(to, []).append((fr, eg, es))
                    else: out.append((fr, to, eg, es))
                continue
            # phis
            if b != entry or loophdr is None: self.phis(b, ins, g)
            for fr, to, eg, es in self.block(b, st, g, bctx, rets):
                if to in body and to != loophdr: edges_in.setdefault(to, []).append((fr, eg, es))
                else: out.append((fr, to, eg, es))
        return out
    def phis(self, b, ins, g):
        tot = F
        for _, eg, s in ins: tot = bor(tot, eg)
        new = {}
        for i in self.blocks[b]['insts']:
            if i['op'] != 'phi': break
            m = {}
            for v, p in i['in']: m[p] = v
            r = None
            for fr, eg, s in ins:
                if fr not in m: continue
                x = self.val(m[fr], i['ty'])
                r = x if r is None else (ite(restrict(eg, tot), x, r) if not isinstance(r, dict) else r)
            new[i['id']] = r if r is not None else UN
        self.env.update(new)
    def block(self, b, st, g, ctx, rets):
        insts = self.blocks[b]['insts']
        self.curctx = ctx; self.curguard = g
        out = []
        for i in insts:
            op = i['op']
            if op == 'phi': continue
            self.nops += 1; self.curloc = loc_of(i)
            if op == 'br':
                if 'cond' in i:
                    c = self.val(i['cond'])
                    c = ap1('undefF', lambda x: F if x is UNDEF else x, c)
                    if len(g_size(c)) < 200: c = prune(c, ctx, [300])
                    tg, fg = band(g, c), band(g, bnot(c))
                    self.edge(out, b, i['t'], tg, st, i); self.edge(out, b, i['f'], fg, st, i)
                else: self.edge(out, b, i['to'], g, st, i)
            elif op == 'switch':
                c = self.val(i['cond']); rest = g
                for k, to in i['cases']:
                    kv = int(k[2])
                    e = ap1(('sw', kv), lambda p: eq0(psub(p, const(kv))) if isinstance(p, Poly) else (F if p is UNDEF else (T if p == bool(kv) else F)), c)
                    self.edge(out, b, to, band(rest, e), st, i); rest = band(rest, bnot(e))
                self.edge(out, b, i['default'], rest, st, i)
            elif op == 'ret':
                v = self.val(i['ops'][0]) if i['ops'] else None
                if rets is None: raise AnalysisError('return inside a loop body')
                rets.append((g, v, st))
            elif op == 'unreachable': pass
            else: self.inst(i, st, g)
        return out
    def edge(self, out, fr, to, g, st, i):
        if g is F: return
        if to in self.live: out.append((fr, to, g, st.copy())); return
        # dead end
        kind, loc = self.deadkind(to)
        self.adddead(kind, g, loc or i.get('loc'))
    def adddead(self, kind, g, loc):
        self.dead[kind] = bor(self.dead.get(kind, F), g)
        self.deadloc.setdefault(kind, []).append((g, loc))
    def blockkinds(self, x):
        for i in self.blocks[x]['insts']:
            if i['op'] in ('call', 'invoke') and isinstance(i['callee'], list) and i['callee'][0] == 'fn':
                for pat, k in DEADKIND:
                    if pat in i['callee'][2] or pat in i['callee'][1]: yield k; break
    def deadkind(self, b):
        seen = set(); st = [b]; found = None
        while st:
            x = st.pop(0)
            if x in seen: continue
            seen.add(x)
            for i in self.blocks[x]['insts']:
                if i['op'] in ('call', 'invoke') and isinstance(i['callee'], list) and i['callee'][0] == 'fn':
                    nm = i['callee'][2]
                    for pat, k in DEADKIND:
                        if pat in nm or pat in i['callee'][1]:
                            if k != 'abort': return k, i.get('loc')
                            found = found or (k, i.get('loc')); break       # a failing destructor on the way out
            st += self.succ[x]
        if found: return found
        # neither a return nor an end of the program can be reached any more: the program goes round for ever
        return ('unreachable' if any(self.blocks[x]['insts'][-1]['op'] == 'unreachable' for x in seen) else 'hang'), None
    # ------------------------------------------------------------ loops
    def loop(self, h, body, ins, st, g, ctx):
        depth = sum(1 for x in self.loopof[h] if x not in self.unrolling)      # 1 = outermost
        nat = atom(('idx', depth))
        n = pvar(nat)
        head = h
        hdr = self.blocks[h]
        phis = [i for i in hdr['insts'] if i['op'] == 'phi']
        pre = [(fr, eg, s) for fr, eg, s in ins]
        tot = F
        for _, eg, s in ins: tot = bor(tot, eg)
        init = {}
        for i in phis:
            m = {p: v for v, p in i['in']}
            r = None
            for fr, eg, s in pre:
                x = self.val(m[fr])
                r = x if r is None else ite(restrict(eg, tot), x, r)
            init[i['id']] = r
        ph_ty = {i['id']: i['ty'] for i in phis}
        closed = {}            # phi id -> Node in terms of n
        cellinit = {}; cellclosed = {}; arrvar = set()
        eff0 = len(self.effects)
        dead0 = dict(self.dead); deadloc0 = {k: list(v) for k, v in self.deadloc.items()}
        env0 = dict(self.env)
        new0 = self.newcount
        names = {}
        nosplit = set()
        if any(x != h and x in body for x in self.loops):
            u = self.unrolled(h, body, init, st, g, ctx, eff0, env0, new0, dead0, deadloc0)
            if u is not None: return u
        def kinit(k): return init[k[1]] if k[0] == 'p' else cellinit[(k[1], k[2])][1]
        def basemap(x): return ap1('basemap', lambda l: mkptr(l.base, ZERO) if isinstance(l, Ptr) else UNDEF, x)
        def offmap(x): return ap1('offmap', lambda l: l.off if isinstance(l, Ptr) else UNDEF, x)
        def split(k, ty): return ty == 'ptr' and k not in nosplit and all(isinstance(l, Ptr) for l in leaves(kinit(k)))
        def katom(k, ty):
            if split(k, ty): return atom(('phi', depth, names.setdefault(k, len(names)), 'i64'))
            return atom(('phi', depth, names.setdefault(k, len(names)), ty))
        def sym(k, ty):
            a = katom(k, ty)
            if split(k, ty): return ap1(('rebase', a), lambda l: mkptr(l.base, pvar(a)), kinit(k))
            return self.typed_atom(a, ty)
        cellty = {}
        bctx_base = Ctx(ctx.lits)
        ptrdefer = True
        for rounds in range(24):
            deferred = False
            self.env = dict(env0); self.newcount = new0
            del self.effects[eff0:]
            self.dead = dict(dead0); self.deadloc = {k: list(v) for k, v in deadloc0.items()}
            for p in init:
                self.env[p] = closed[p] if p in closed else sym(('p', p), ph_ty[p])
            hs = st.copy()
            for b in arrvar:
                o = self.wobj(hs, b); o.dflt = ('loopver', depth, ('memphi', b if b[0] != 'alloca' else 'local', self.snapshot(st, b))); o.log = (); o.cells = {}; o.regions = []
            for (b, k), (sz, iv) in cellinit.items():
                o = self.wobj(hs, b)
                o.cells[k] = (sz, cellclosed[(b, k)] if (b, k) in cellclosed else sym(('c', b, k), cellty[(b, k)]))
            dead_before = dict(self.dead)
            self.dead = {}; dl = self.deadloc; self.deadloc = {}
            exits = self.region(h, body, h, hs, T, bctx_base, None)
            loopdead, loopdeadloc = self.dead, self.deadloc
            self.dead = dead_before; self.deadloc = dl
            back = [e for e in exits if e[1] == h]
            outs = [e for e in exits if e[1] != h]
            changed = False
            if not back:
                # body executes once
                cont = F
                nxt = {}
                bs = None
            else:
                cont = F
                for fr, to, eg, s in back: cont = bor(cont, eg)
                bs = self.merge([(eg, s) for _, _, eg, s in back])
                nxt = {}
                for i in phis:
                    m = {p: v for v, p in i['in']}
                    r = None
                    for fr, to, eg, s in back:
                        x = self.val(m[fr])
                        r = x if r is None else ite(restrict(eg, cont), x, r)
                    nxt[i['id']] = r
                # memory
                def phibase(b): return b[0] == 'sym' and TM.atom_key(b[1])[0] == 'phi' and TM.atom_key(b[1])[1] == depth
                for b, o in list(bs.mem.items()):
                    ho = self.obj(hs, b)
                    if o is ho: continue
                    if phibase(b) and (rounds == 0 or changed or ptrdefer): deferred = True; continue
                    if b[0] == 'alloca' and b not in st.mem and self.alloca_in(b, body): continue
                    newlog = [e for e in o.log if not any(e is x for x in ho.log)]
                    if (newlog or o.dflt != ho.dflt or o.regions != ho.regions) and b not in arrvar:
                        arrvar.add(b); changed = True
                        for key in [key for key in cellinit if key[0] == b]: del cellinit[key]; cellclosed.pop(key, None)
                        continue
                    if b in arrvar: continue
                    for k, (sz, v) in o.cells.items():
                        if (b, k) in cellinit: continue
                        hv = ho.cells.get(k)
                        if hv is None:
                            hv = (sz, self.read(hs, mkptr(b, const(k)), sz, self.sizety(v, sz)))
                        if hv[0] != sz:
                            arrvar.add(b); changed = True; continue
                        if hv[1] is not v:
                            if hv[1] is UN and b[0] == 'alloca' and b not in st.mem: continue
                            cellinit[(b, k)] = (sz, hv[1]); cellty[(b, k)] = self.sizety(v, sz) if hv[1] is UN else self.sizety(hv[1], sz); changed = True
                if changed: continue        # cells found in this round are not yet symbolic
                # a pointer keeps its object while it moves
                demoted = False
                for p in init:
                    if p not in closed and split(('p', p), ph_ty[p]) and basemap(nxt[p]) is not basemap(init[p]): nosplit.add(('p', p)); demoted = True
                for (b, k), (sz, iv) in cellinit.items():
                    kk = ('c', b, k)
                    if (b, k) in cellclosed or b in arrvar or not split(kk, cellty[(b, k)]): continue
                    o = bs.mem.get(b)
                    if o is not None and k in o.cells and basemap(o.cells[k][1]) is not basemap(iv): nosplit.add(kk); demoted = True
                if demoted: continue
                # affine detection
                phisyms = frozenset(a for k, v in names.items() for ty in ('i64', ph_ty[k[1]] if k[0] == 'p' else cellty.get((k[1], k[2]), 'i64')) for a in [atom(('phi', depth, v, ty))])
                def affine(cur, nx, ini):
                    if cur is nx: return ini            # invariant
                    d = ap2('dif', ldiff, nx, cur)
                    d = prune(d, Ctx(bctx_base.lits + tuple(facts_of(cont))), [400])
                    if any(not isinstance(l, Poly) for l in leaves(d)): return None
                    if support(d) & (phisyms | {nat}): return None
                    s = ap1(('muln', nat), lambda p: pmul(p, n), d)
                    return ap2('addo', laddo, ini, s)
                for p in init:
                    if p in closed: continue
                    c = affine(self.env_hdr(p, sym, ph_ty), nxt[p], init[p])
                    if c is not None: closed[p] = c; changed = True
                for (b, k), (sz, iv) in list(cellinit.items()):
                    if (b, k) in cellclosed or b in arrvar: continue
                    cur = sym(('c', b, k), cellty[(b, k)])
                    o = bs.mem.get(b); 
                    nx = o.cells.get(k, (sz, cur))[1]
                    c = affine(cur, nx, iv)
                    if c is not None: cellclosed[(b, k)] = c; changed = True
            if not changed:
                if not deferred: break
                ptrdefer = False        # pointers that stay free: objects behind them count as written
        else:
            raise AnalysisError('loop analysis does not stabilise in ' + self.f['dem'])
        # ---- exit iteration
        free = [('p', p) for p in init if p not in closed] + [('c', b, k) for (b, k) in cellinit if (b, k) not in cellclosed]
        def kty(k): return ph_ty[k[1]] if k[0] == 'p' else cellty[(k[1], k[2])]
        def raw(k, x): return offmap(x) if split(k, kty(k)) else x
        def keyinit(k): return raw(k, kinit(k))
        def keynext(k): return raw(k, nxt[k[1]] if k[0] == 'p' else bs.mem.get(k[1]).cells[k[2]][1])
        def keysym(k): return raw(k, sym(k, kty(k)))
        def keyatom(k): return katom(k, kty(k))
        def rty(k): return 'i64' if split(k, kty(k)) else kty(k)
        # a pointer that moves between known objects: what it reaches is only known iteration by iteration
        if back and any(kty(k) == 'ptr' and not split(k, 'ptr') and any(isinstance(l, Ptr) and l.base[0] in ('g', 'alloca', 'new') for l in leaves(keyinit(k)) + leaves(keynext(k))) for k in free):
            u = self.unrolled(head, body, init, st, g, ctx, eff0, env0, new0, dead0, deadloc0, True)
            if u is not None: return u
            raise AnalysisError('a pointer moves between objects in a loop of ' + self.f['dem'])
        # ---- recurrences without a closed form: merge bisimilar ones, name them by their equations
        rep = {}; recs = {}; merge_mp = {}; recmemo = {}
        loopctx = Ctx(ctx.lits + tuple(l for l in facts_of(g) if l not in ctx.lits))
        def hoist(xs, h, mk, cx=None, depth_=0):
            """decide the loop-invariant tests outside of the summary"""
            cx = cx or loopctx
            best = None
            for x in xs:
                vs = []; collect_vars(x, vs)
                for v in vs:
                    if any(TM.atom_key(a)[0] == 'bv' and TM.atom_key(a)[1] == h for a in TM._bsup[v]): continue
                    if best is None or v < best: best = v
            if best is None: return mk(xs)
            d = cx.decide(best) if depth_ < 24 else None
            if d is not None: return hoist([cofactor(x, best, d) for x in xs], h, mk, cx, depth_)
            if depth_ > 12: return mk(xs)
            return ite(bvar(best), hoist([cofactor(x, best, True) for x in xs], h, mk, cx.add(best, True), depth_ + 1), hoist([cofactor(x, best, False) for x in xs], h, mk, cx.add(best, False), depth_ + 1))
        if free and cont is not F:
            allfas = frozenset(keyatom(k) for k in free)
            for k in free:
                d = ap2('dif', ldiff, keynext(k), keysym(k))
                if all(isinstance(l, Poly) for l in leaves(d)) and not (support(d) & allfas): recs[k] = ('sum', d)
            rest = [k for k in free if k not in recs]
            asp = lambda x: ap1('aspoly', aspoly, x)
            cls = {k: (keyinit(k).uid, rty(k)) for k in rest}
            for _ in range(len(rest) + 1):
                ids = {}
                for k in rest: ids.setdefault(cls[k], len(ids))
                mp = {keyatom(k): pvar(atom(('bvc', ids[cls[k]], rty(k)))) for k in rest}
                nc = {k: (cls[k], subst(keynext(k), mp).uid) for k in rest}
                if len(set(nc.values())) == len(ids): break
                cls = nc
            byc = {}
            for k in rest: byc.setdefault(cls[k], k); rep[k] = byc[cls[k]]
            reps = list(byc.values())
            merge_mp = {keyatom(k): pvar(keyatom(rep[k])) for k in rest if rep[k] != k}
            rnext = {k: subst(keynext(k), merge_mp) if merge_mp else keynext(k) for k in reps}
            # names that do not depend on the order of appearance
            hs_ = {k: show(keyinit(k)) + rty(k) for k in reps}
            for _ in range(min(len(reps), 6)):
                mp = {keyatom(k): pvar(atom(('bvh', hs_[k]))) for k in reps}
                hs_ = {k: hs_[k][:60] + '|%x' % (zlib.crc32((hs_[k] + show(subst(rnext[k], mp))).encode())) for k in reps}
            reps.sort(key=lambda k: hs_[k])
            atomrep = {keyatom(k): k for k in reps}
            def closure(terms):
                need = set(); st_ = list(terms)
                while st_:
                    t = st_.pop()
                    for a in support(t):
                        if a in atomrep and atomrep[a] not in need:
                            need.add(atomrep[a]); st_.append(rnext[atomrep[a]])
                return [k for k in reps if k in need]
            def bind(extra, ks):
                """bound-variable form of the equations of ks and of the terms in extra"""
                extra = [subst(x, merge_mp) if merge_mp else x for x in extra]
                h = 1 + max([bvheight(t) for t in extra + [rnext[k] for k in ks]] + [0])
                mp = {nat: pvar(atom(('bv', h, 'n')))}
                for j, k in enumerate(ks): mp[keyatom(k)] = bv_for(h, j, rty(k))
                return h, tuple((keyinit(k), subst(rnext[k], mp)) for k in ks), [subst(x, mp) for x in extra]
            for k in rest:
                if rep[k] == k:
                    ks = closure([pvar(keyatom(k))])
                    h, system, _ = bind([], ks)
                    recs[k] = ('rec', (h, system), ks.index(k))
            for k in rest: recs[k] = recs[rep[k]]
        if cont is F: N = leaf(ZERO)
        else:
            def mu(c):
                if not free:
                    h = 1 + bvheight(c)
                    key = subst(c, {nat: pvar(atom(('bv', h, 'n')))})
                    return leaf(pvar(atom(('mu', h, key, ()), (key,))))
                sm = {keyatom(k): ap1(('sumn', recs[k][1].uid), laddsum(recs[k][1], n, nat), keyinit(k)) for k in free if recs[k][0] == 'sum' and keyatom(k) in support(c)}
                if sm: c = subst(c, sm)
                c = subst(c, merge_mp) if merge_mp else c
                h, system, (key,) = bind([c], closure([c]))
                key = settle(key, ctx, [600])
                def mk(xs):
                    sy = tuple((xs[2 * j + 1], xs[2 * j + 2]) for j in range(len(system)))
                    return leaf(pvar(atom(('mu', h, xs[0], sy), (xs[0],) + tuple(z for xy in sy for z in xy))))
                return hoist([key] + [z for xy in system for z in xy], h, mk)
            N = self.first_false(cont, nat, g, ctx, free, keyatom, mu)
            if N is not leaf(ZERO) and bs is not None:
                # nothing continues after the first iteration?
                c0 = subst(cont, {**{keyatom(k): ap1('aspoly', aspoly, keyinit(k)) for k in free}, nat: leaf(ZERO)})
                if prune(c0, loopctx, [300]) is F: N = leaf(ZERO)
        solved = const_count(N) is not None and const_count(N) <= UNROLL
        if back and (solved or any(isinstance(l, Poly) and any(TM._atoms[a][0] == 'mu' for m, _ in l.t for a, _ in m) for l in leaves(N))):
            # few iterations: evaluate them in place
            keep = (dict(self.env), self.newcount, self.effects[eff0:], dict(self.dead), {k: list(v) for k, v in self.deadloc.items()})
            u = self.unrolled(head, body, init, st, g, ctx, eff0, env0, new0, dead0, deadloc0, solved)
            if u is not None: return u
            if not solved: self.env, self.newcount, self.effects[eff0:], self.dead, self.deadloc = keep
            if N is leaf(ZERO): raise AnalysisError('single iteration not confirmed')
        def final_of(k, N):
            kind = recs[k]
            if kind[0] == 'sum': return ap2('addo', laddo, keyinit(k), ap1(('sum', kind[1].uid), lambda x: mksum(x, kind[1], nat), N))
            ty = rty(k); (h, system), j = kind[1], kind[2]
            def mk(xs):
                sy = tuple((xs[2 * q], xs[2 * q + 1]) for q in range(len(system)))
                def at(x):
                    if not isinstance(x, Poly): return UNDEF
                    c = pconst(x)
                    if ty != 'ptr' and isinstance(c, int) and 0 <= c <= 4: return rec_const(c, h, sy, j)
                    return self.typed_atom(atom(('rec', x, h, sy, j, ty), (x, sy)), ty)
                return ap1n(at, N)
            key = (N.uid, id(kind[1]), j, ty)
            if key not in recmemo: recmemo[key] = hoist([z for xy in system for z in xy], h, mk)
            return recmemo[key]
        sub_exit = {}
        for k in free:
            fv = final_of(k, N) if k in recs else keyinit(k)
            sub_exit[keyatom(k)] = ap1('aspoly', aspoly, fv)
        full = dict(sub_exit); full[nat] = N
        nsub = {}
        for k in free:
            fv = final_of(k, leaf(n)) if k in recs else keyinit(k)
            nsub[keyatom(k)] = ap1('aspoly', aspoly, fv)
        memo_full = {}
        def S(x): return subst(x, full, memo_full)
        memo_n = {}
        def SN(x): return subst(x, nsub, memo_n) if nsub else x
        # ---- effects of the loop
        items = self.effects[eff0:]
        del self.effects[eff0:]
        items = [map_entry(e, SN) for e in items]
        cnt = ap1('inc', lambda p: padd(p, ONE) if isinstance(p, Poly) else p, N)
        loc = None
        if items:
            items, cnt2 = norm_items(items, N, cnt, nat, Ctx(ctx.lits), SN(cont))
            self.effects.append(mk_forall(g, nat, cnt2, items, items[0].loc))
        # dead ends
        for kind, dg in loopdead.items():
            dgn = SN(dg)
            # does it depend on the iteration?
            ex = self.exists(dgn, nat, cnt, ctx)
            self.adddead(kind, band(g, ex), (loopdeadloc[kind][0][1]))
        # ---- exit edges
        # header-defined values must be rewritten for the code after the loop
        res = []
        defs = set()
        for b in body:
            for i in self.blocks[b]['insts']:
                if 'id' in i: defs.add(i['id'])
        # values of outs
        newenv = {}
        for d in defs:
            if d in self.env: newenv[d] = self.env[d]
        used = self.lcssa_used(body)
        for d in used:
            if d in newenv and isinstance(newenv[d], Node): self.env[d] = S(newenv[d])
        otot = F
        for fr, to, eg, s in outs: otot = bor(otot, eg)
        for fr, to, eg, s in outs:
            eg2 = restrict(eg, otot) if len(outs) > 1 else T
            eg2 = S(eg2)
            if len(outs) > 1: pass
            ns = State(dict(st.mem))
            for b, o in s.mem.items():
                ho = self.obj(hs, b)
                if o is ho and b not in arrvar and not any(key[0] == b for key in cellinit): continue
                if b in arrvar:
                    so = self.obj(st, b)
                    r = so.copy()
                    def entries_of(ob):
                        es = [map_entry(e, SN) for e in ob.log]
                        # constant-offset cells written in the loop
                        return es + [mk_store(T, const(k), sz, SN(v), None) for k, (sz, v) in ob.cells.items()]
                    ob = bs.mem.get(b) if bs is not None else None
                    same = ob is None or (len(ob.log) == len(o.log) and all(x is y for x, y in zip(ob.log, o.log)) and set(ob.cells) == set(o.cells) and all(ob.cells[k][1] is o.cells[k][1] for k in o.cells))
                    if same:
                        es = entries_of(o)
                        if es:
                            it, c2 = norm_items(es, N, cnt, nat, Ctx(ctx.lits), SN(cont))
                            r.log = r.log + (mk_forall(g, nat, c2, it, it[0].loc),)
                    else:
                        # complete iterations, then the part of the last one in front of the exit
                        scont = SN(cont)
                        es = [with_guard(e, restrict(e.guard, scont)) for e in entries_of(ob)]
                        if es: r.log = r.log + (mk_forall(g, nat, N, es, es[0].loc),)
                        for e in entries_of(o):
                            e = map_entry(e, lambda x: subst(x, {nat: N}))
                            r.log = r.log + (with_guard(e, band(g, e.guard)),)
                    ns.mem[b] = r
                else:
                    r = self.obj(st, b).copy() if b in st.mem or b[0] != 'alloca' else Obj(('undef',))
                    for k, (sz, v) in o.cells.items():
                        r.cells[k] = (sz, S(v))
                    r.log = tuple(o.log); r.regions = list(o.regions); r.dflt = o.dflt
                    ns.mem[b] = r
            res.append((fr, to, band(g, eg2), ns, None))
        return res
    def unrolled(self, head, *a):
        self.unrolling.add(head)
        try: return self.unrolled1(head, *a)
        finally: self.unrolling.discard(head)
    def unrolled1(self, head, body, init, st, g, ctx, eff0, env0, new0, dead0, deadloc0, partial=False):
        """the exits of a loop whose few iterations are all decided, else None"""
        def reset():
            self.env = dict(env0); self.newcount = new0
            del self.effects[eff0:]
            self.dead = dict(dead0); self.deadloc = {k: list(v) for k, v in deadloc0.items()}
        reset()
        phis = [i for i in self.blocks[head]['insts'] if i['op'] == 'phi']
        vals = dict(init); st = st.copy(); early = []; used = None
        for it in range(UNROLL + (5 if partial else 1)):
            self.env.update(vals)
            exits = [e for e in self.region(head, body, head, st, g, ctx, None) if prune(e[2], ctx, [300]) is not F]
            back = [e for e in exits if e[1] == head]
            if not back:
                if early and used:
                    rest = F
                    for fr, to, eg, s, env in early: rest = bor(rest, eg)
                    for d in used:
                        v = self.env.get(d)
                        for fr, to, eg, s, env in reversed(early):
                            if d in env: v = env[d] if v is None else ite(eg, env[d], v)
                        if v is not None: self.env[d] = v
                return [(fr, to, eg, s, None) for fr, to, eg, s, env in early] + [(fr, to, band(g, eg), s, None) for fr, to, eg, s in exits]
            if len(back) < len(exits):
                if not partial: break
                if used is None: used = [d for d in self.lcssa_used(body) if any(i.get('id') == d for b in body for i in self.blocks[b]['insts'])]
                env = {d: self.env[d] for d in used if d in self.env}
                early += [(fr, to, band(g, eg), s, env) for fr, to, eg, s in exits if to != head]
            tot = F
            for _, _, eg, s in back: tot = bor(tot, eg)
            vals = {}
            for i in phis:
                m = {p: v for v, p in i['in']}
                r = None
                for fr, to, eg, s in back:
                    x = self.val(m[fr])
                    r = x if r is None else ite(restrict(eg, tot), x, r)
                vals[i['id']] = r
            st = self.merge([(eg, s) for _, _, eg, s in back])
            g = band(g, tot)
        reset()
        return None
    def env_hdr(self, p, sym, ph_ty): return sym(('p', p), ph_ty[p])
    def alloca_in(self, b, body): return False
    def lcssa_used(self, body):
        u = set()
        for b in self.reach:
            if b in body: continue
            for i in self.blocks[b]['insts']:
                for o in operands(i):
                    if isinstance(o, int): u.add(o)
        return u
    def exists(self, c, nat, cnt, ctx):
        if nat not in support(c): return c
        h = 1 + bvheight(c)
        key = subst(c, {nat: pvar(atom(('bv', h, 'n')))})
        return ap1(('exists', key.uid), lambda x: bvar(batom(('exists', x, h, key), (x, key))), cnt)
    def first_false(self, cont, nat, g, ctx, free, keyatom, mu):
        """smallest n>=0 with not cont(n), as a diagram over n-free atoms."""
        n = pvar(nat)
        fa = frozenset(keyatom(k) for k in free)
        def solve(c, ctx):
            c = prune(c, ctx, [300])
            if c is F: return leaf(ZERO)
            if c is T: return leaf(pvar(atom(('never',))))
            # hoist n-free atoms
            vs = []; collect_vars(c, vs)
            nf = [v for v in vs if not (TM._bsup[v] & (fa | {nat}))]
            if nf:
                v = min(nf)
                return ite(bvar(v), solve(cofactor(c, v, True), ctx.add(v, True)), solve(cofactor(c, v, False), ctx.add(v, False)))
            if len(vs) == 1 and not (TM._bsup[vs[0]] & fa):
                k = TM._batoms[vs[0]]; pos = c.hi is T
                if k[0] in ('le0', 'eq0'):
                    p = k[1]
                    a = ZERO; b = ZERO; ok = True
                    for m, cf in p.t:
                        e = [x for x in m if x[0] == nat]
                        if e:
                            if e[0][1] != 1: ok = False
                            a = padd(a, mkpoly({tuple(x for x in m if x[0] != nat): cf}))
                        else: b = padd(b, mkpoly({m: cf}))
                    ac = pconst(a)
                    if ok and nat not in support(a) and nat not in support(b) and ac is not None:
                        if k[0] == 'le0':
                            if not pos: ac, b = -ac, psub(ONE, b)      # a n + b <= 0 (negated: -a n + 1 - b <=0)
                            if ac > 0:
                                # continue iff n <= -b/a ; first false = floor(-b/a)+1
                                nb = pneg(b)
                                q = nb if ac == 1 else fdivc(nb, ac)
                                N = padd(q, ONE)
                                return ite(prune(le0(pneg(N)), ctx, [100]), leaf(N), leaf(ZERO))
                            else:
                                # cont true for large n: false first iff b>0 at n=0
                                return ite(prune(le0(b), ctx, [50]), leaf(pvar(atom(('never',)))), leaf(ZERO))
                        if k[0] == 'eq0' and not pos:
                            # continue while a n + b != 0
                            if ac in (1, -1):
                                N = pneg(b) if ac == 1 else b
                                return leaf(N)
                            x = pexact(pneg(b), const(ac))
                            if x is not None and all(not isinstance(c2, Fraction) for _, c2 in x.t): return leaf(x)
                            return leaf(fdivc(pneg(b), ac) if ac > 0 else fdivc(b, -ac))
                        if k[0] == 'eq0' and pos:
                            return leaf(ONE) if False else mu(c)
            return mu(c)
        return solve(cont, ctx)
    # ------------------------------------------------------------ instructions
    def inst(self, i, st, g):
        op = i['op']
        if op in ('call', 'invoke'): return self.call(i, st, g)
        if op == 'alloca':
            self.env[i['id']] = leaf(mkptr(('alloca', i['id'], i.get('name', '')), ZERO))
            st.mem[('alloca', i['id'], i.get('name', ''))] = Obj(('undef',))
            return
        if op == 'store':
            v = self.val(i['ops'][0]); p = self.val(i['ops'][1])
            if isinstance(v, dict): raise AnalysisError('store of aggregate')
            if i['vty'] == 'i1': v = ite(v, leaf(ONE), leaf(ZERO))
            p = prune(p, self.curctx, [60])
            if p.v is None: self.write(st, p.leaf, i['size'], v, T, loc_of(i))
            else:
                for l in leaves(p):
                    gg = ap1(('is', id(l)), lambda x: x is l, p)
                    self.write(st, l, i['size'], v, gg, loc_of(i))
            return
        if op == 'load':
            p = self.val(i['ops'][0]); sz = i['size']; ty = i['ty']
            if ty.startswith('{') or ty.startswith('['): raise AnalysisError('aggregate load')
            self.env[i['id']] = apn(lambda q: self.read(st, q, sz, ty), [p])
            return
        if op == 'getelementptr':
            p = self.val(i['ptr'])
            if not i['ok']: raise AnalysisError('unsupported getelementptr')
            off = leaf(const(i['off']))
            for v, sc in i['var']:
                x = self.val(v)
                x = ap1('b2i', b2i, x)
                off = ap2('add', _addf, off, ap1(('sc', sc), lambda q, sc=sc: pscale(q, sc) if isinstance(q, Poly) else UNDEF, x))
            self.env[i['id']] = ap2('ptradd', ptradd, p, off)
            return
        if op == 'phi': return
        if op in ('extractvalue',):
            a = self.val(i['ops'][0])
            if isinstance(a, dict): self.env[i['id']] = a.get(tuple(i['path']), UN)
            else: self.env[i['id']] = ap1(('ev', tuple(i['path']), i['ty']), lambda x: self.typed_atom(atom(('ev', tuple(i['path']), x), (x,)), i['ty']) if isinstance(x, Poly) else UNDEF, a)
            return
        if op == 'insertvalue':
            a = self.val(i['ops'][0]); d = dict(a) if isinstance(a, dict) else {}
            d[tuple(i['path'])] = self.val(i['ops'][1])
            self.env[i['id']] = d
            return
        ops = [self.val(o) for o in i['ops']]
        self.env[i['id']] = self.arith(i, op, ops)
    def arith(self, i, op, a):
        ty = i['ty']
        if op == 'icmp': return self.icmp(i['pred'], a[0], a[1])
        if op == 'fcmp': return fcmp(i['pred'], a[0], a[1])
        if op == 'select': return ite(ap1('undefF', lambda x: F if x is UNDEF else x, a[0]), a[1], a[2])
        if op == 'freeze': return a[0]
        isb = ty == 'i1'
        if op in ('zext', 'sext', 'uitofp', 'sitofp'):
            if i['fromty'] == 'i1':
                one = ONE if op != 'sext' and op != 'sitofp' else const(-1)
                return ap1((op, 'b'), lambda x: (one if x is True else ZERO if x is False else x), a[0])
            return a[0]
        if op == 'trunc':
            if isb: return ap1('trunc1', trunc1, a[0])
            return ap1(('trunc', ty), lambda x: const(int(pconst(x)) & 0xff) if isinstance(x, Poly) and ty == 'i8' and isinstance(pconst(x), int) else x, a[0])
        if op in ('fpext', 'fptrunc', 'bitcast', 'addrspacecast'): return a[0]
        if op in ('fptosi', 'fptoui'):
            return ap1('fptoi', fptoi, a[0])
        if op == 'ptrtoint':
            return ap1('p2i', lambda p: padd(pvar(atom(('addr', p.base))), p.off) if isinstance(p, Ptr) else p, a[0])
        if op == 'inttoptr':
            return ap1('i2p', i2p, a[0])
        if isb:
            if op == 'and': return ap2('band', lambda x, y: (False if (x is False or y is False) else UNDEF if (x is UNDEF or y is UNDEF) else x and y), a[0], a[1])
            if op == 'or': return ap2('bor', lambda x, y: (True if (x is True or y is True) else UNDEF if (x is UNDEF or y is UNDEF) else x or y), a[0], a[1])
            if op == 'xor': return ap2('bxor', lambda x, y: UNDEF if (x is UNDEF or y is UNDEF) else x != y, a[0], a[1])
        f = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'fadd': 'add', 'fsub': 'sub', 'fmul': 'mul'}.get(op)
        if f == 'add': return ap2('add', _addf, a[0], a[1])
        if f == 'sub': return ap2('sub', lambda x, y: psub(x, y) if isinstance(x, Poly) and isinstance(y, Poly) else UNDEF, a[0], a[1])
        if f == 'mul': return ap2('mul', _mulf, a[0], a[1])
        if op == 'fneg': return ap1('neg', lambda x: pneg(x) if isinstance(x, Poly) else x, a[0])
        if op == 'fdiv': return ap2('fdiv', lambda x, y: pdiv_real(x, y) if isinstance(x, Poly) and isinstance(y, Poly) else UNDEF, a[0], a[1])
        if op == 'shl':
            return ap2('shl', lambda x, y: pscale(x, 2 ** int(pconst(y))) if isinstance(x, Poly) and isinstance(y, Poly) and pconst(y) is not None else (uf('shl', x, y)), a[0], a[1])
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            def dv(x, y):
                if not (isinstance(x, Poly) and isinstance(y, Poly)): return UNDEF
                return self.idiv(op, x, y)
            return apn(dv, [a[0], a[1]])
        if op == 'frem': return apn(lambda x, y: uf('fmod', x, y), a)
        if op in ('and', 'or', 'xor', 'lshr', 'ashr'):
            def bw(x, y):
                if x is UNDEF or y is UNDEF: return UNDEF
                cx, cy = pconst(x), pconst(y)
                if isinstance(cx, int) and isinstance(cy, int):
                    return const({'and': cx & cy, 'or': cx | cy, 'xor': cx ^ cy, 'lshr': (cx & (2**64-1)) >> cy if cy >= 0 else 0, 'ashr': cx >> cy if cy >= 0 else 0}[op])
                if op == 'xor' and cy == -1: return psub(const(-1), x)
                if op == 'and' and isinstance(cy, int) and cy >= 0 and (cy & (cy + 1)) == 0 and self.nonneg(x):
                    q = self.idiv('udiv', x, const(cy + 1))
                    if isinstance(q, Node): return ap1(('andm', x, cy), lambda q: psub(x, pscale(q, cy + 1)), q)
                    return psub(x, pscale(q, cy + 1))
                if op in ('lshr', 'ashr') and isinstance(cy, int) and (op == 'ashr' or self.nonneg(x)): return self.idiv('udiv', x, const(2 ** cy)) if self.nonneg(x) else fdivc(x, 2 ** cy)
                if op == 'or' and (cy == 0): return x
                if op == 'or' and (cx == 0): return y
                if op == 'and' and (cy == 0 or cx == 0): return ZERO
                if op in ('and', 'or', 'xor') and repr(y) < repr(x): x, y = y, x
                return uf(op, x, y)
            return apn(bw, a)
        raise AnalysisError('unsupported instruction ' + op)
    def nonneg(self, p):
        return prune(le0(pneg(p)), self.curctx, [60]) is T
    def idiv(self, op, x, y):
        cx, cy = pconst(x), pconst(y)
        if cy == 0: return UNDEF
        if isinstance(cx, int) and isinstance(cy, int):
            q = abs(cx) // abs(cy); q = q if (cx < 0) == (cy < 0) else -q
            return const(q) if op[1:] == 'div' else const(cx - q * cy)
        # exact / euclid decomposition x = y*s + r
        q = self.quot(x, y)
        if isinstance(q, Poly): return q if op[1:] == 'div' else psub(x, pmul(q, y))
        # general case
        nonneg = self.nonneg(x) and prune(le0(psub(ONE, y)), self.curctx, [60]) is T
        kind = 'fdivpos' if nonneg else 'sdiv'
        a = pvar(atom((kind, x, y), (x, y)))
        return a if op[1:] == 'div' else psub(x, pmul(a, y))
    def quot(self, x, y):
        e = pexact(x, y)
        if e is not None and all(not isinstance(c, Fraction) for _, c in e.t): return e
        # x = y*s + r with 0<=r<y provable
        s = ZERO; r = ZERO
        lm, lc = max(y.t, key=lambda t: (sum(e for _, e in t[0]), t[0]))
        if len(y.t) == 1:
            for m, c in x.t:
                dm = mmul(m, tuple((a, -e) for a, e in lm))
                if all(e > 0 for _, e in dm) and not isinstance(c, Fraction) and not isinstance(lc, Fraction) and c % lc == 0:
                    s = padd(s, mkpoly({dm: c // lc}))
                else: r = padd(r, mkpoly({m: c}))
            ctx = self.curctx
            for s, r in ((s, r), (psub(s, ONE), padd(r, y)), (padd(s, ONE), psub(r, y))):
                if prune(le0(pneg(r)), ctx, [80]) is T and prune(le0(padd(psub(r, y), ONE)), ctx, [80]) is T:
                    # truncated division = floor division only for a non-negative quotient
                    if s is ZERO or self.nonneg(s): return s
        return None
    def allzero(self, d):
        # a sum of non-negative terms vanishes iff each of them does
        if len(d.t) < 2: return None
        if all(c < 0 for _, c in d.t): d = pneg(d)
        if not all(c > 0 and len(m) == 1 and m[0][1] == 1 for m, c in d.t): return None
        xs = [pvar(m[0][0]) for m, _ in d.t]
        if not all(self.nonneg(x) for x in xs): return None
        e = T
        for x in xs: e = band(e, eq0(x))
        return e
    def icmp(self, pred, a, b):
        def cmp(x, y):
            if x is UNDEF or y is UNDEF: return UNDEF
            if isinstance(x, bool) or isinstance(y, bool):
                if pred == 'eq': return x == y
                if pred == 'ne': return x != y
                x, y = int(x), int(y)
                return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': -x < -y, 'sgt': -x > -y, 'sle': -x <= -y, 'sge': -x >= -y}[pred]
            if isinstance(x, Fn) or isinstance(y, Fn):
                if pred == 'eq': return x is y
                return x is not y
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.base == y.base:
                    x, y = x.off, y.off
                else:
                    if pred in ('eq', 'ne'):
                        r = self.peq(x, y)
                        return r if pred == 'eq' else bnot(r)
                    return bvar(batom(('pcmp', pred, x, y), (x, y)))
            if isinstance(x, Ptr) and y is ZERO: return cmp(x, mkptr(('null',), ZERO))      # a null pointer that travelled as an integer
            if isinstance(y, Ptr) and x is ZERO: return cmp(mkptr(('null',), ZERO), y)
            if isinstance(x, Ptr): x = padd(pvar(atom(('addr', x.base))), x.off)
            if isinstance(y, Ptr): y = padd(pvar(atom(('addr', y.base))), y.off)
            d = psub(x, y)
            if pred in ('eq', 'ne'):
                e = self.allzero(d)
                if e is None: e = eq0(d)
                # one spelling for 'is the least (greatest) admissible value' whether tested with == or an inequality
                if e.v is not None and TM._bsup[e.v] and all(TM._atoms[x][0] == 'arg' for x in TM._bsup[e.v]):
                    for q in (d, pneg(d)):
                        if prune(le0(pneg(q)), self.curctx, [40]) is T: e = le0(q); break
                return e if pred == 'eq' else bnot(e)
            if pred == 'sle': return le0(d)
            if pred == 'slt': return le0(padd(d, ONE))
            if pred == 'sge': return le0(pneg(d))
            if pred == 'sgt': return le0(padd(pneg(d), ONE))
            if pred in ('ugt', 'uge'): x, y = y, x; d = pneg(d); p2 = {'ugt': 'ult', 'uge': 'ule'}[pred]
            else: p2 = pred
            s = le0(d) if p2 == 'ule' else le0(padd(d, ONE))
            xneg = prune(le0(padd(x, ONE)), self.curctx, [40]); yneg = prune(le0(padd(y, ONE)), self.curctx, [40])
            return ite(xneg, ite(yneg, s, F), ite(yneg, T, s))
        r = apn(cmp, [a, b])
        return prune(r, self.curctx, [40]) if self.curctx.lits else r
    def peq(self, x, y): return peq_ptr(x, y)
    # ------------------------------------------------------------ calls
    def call(self, i, st, g):
        cal = i['callee']
        intr = i.get('intr')
        if not (isinstance(cal, list) and cal[0] == 'fn'):
            if isinstance(cal, list) and cal[0] == 'md': return
            nm = '*indirect*'; mang = nm
        else: mang, nm = cal[1], cal[2]
        args = [self.val(o) if not (isinstance(o, list) and o[0] == 'md') else UN for o in i['args']]
        rid = i.get('id')
        if intr:
            return self.intrinsic(intr, i, args, st, g)
        base = mang
        if base in FPFN:
            self.env[rid] = apn(lambda *xs: fpapp(base, xs), args); return
        if base in ('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t'):
            self.newcount += 1
            b = ('new', self.newcount)
            st.mem[b] = Obj(('undef',))
            if self.heap:
                fo = Obj(('undef',)); fo.cells[0] = (1, leaf(ZERO)); st.mem[('freed', b[1])] = fo
            self.env[rid] = leaf(mkptr(b, ZERO)); return
        if base in ('_ZdlPvm', '_ZdaPvm', '_ZdlPv', '_ZdaPv', 'free'):
            kind = self.rule(nm) or 'ignore'
            if kind == 'ignore': return
            if kind == 'heap':          # lifetime of heap blocks: releasing twice is an error, so is any later access
                for l in leaves(args[0]):
                    if isinstance(l, Ptr) and l.base[0] == 'new':
                        cond = ap1(('is', id(l)), lambda x: x is l, args[0])
                        self.use(st, l, cond)
                        self.write(st, mkptr(('freed', l.base[1]), ZERO), 1, leaf(ONE), cond, loc_of(i))
                    elif isinstance(l, Ptr) and l.base[0] == 'alloca': self.die('uaf', band(self.curguard, ap1(('is', id(l)), lambda x: x is l, args[0])), loc_of(i))
                return
        kind = self.rule(nm)
        if kind is None: kind = 'const' if i.get('pure') else 'default'
        self.calls_seen[nm] = kind
        if kind == 'ignore':
            if rid is not None: self.env[rid] = self.typed_atom(atom(('ign', nm)), i['ty'])
            return
        if kind == 'const' or kind == 'getter' or kind == 'constsnap':
            def app(*xs):
                ks = []
                for x in xs:
                    if isinstance(x, Ptr):
                        if x.base[0] in ('alloca', 'new') or kind == 'constsnap': ks.append(('obj', self.snapshot(st, x.base), x.off))
                        else: ks.append(x)
                    elif isinstance(x, (Poly, bool, Fn)): ks.append(x)
                    else: ks.append('undef')
                at = atom(('call', nm) + tuple(ks), [k for k in ks if isinstance(k, (Poly, Ptr, tuple))])
                return self.typed_atom(at, i['ty'])
            sret = i.get('sret') or []
            if sret:
                # result object is a function of the other arguments
                others = [a for k, a in enumerate(args) if k not in sret]
                def app2(*xs):
                    ks = tuple(('obj', self.snapshot(st, x.base), x.off) if isinstance(x, Ptr) and x.base[0] in ('alloca', 'new') else x for x in xs)
                    return leaf(pvar(atom(('call', nm) + ks, [k for k in ks if isinstance(k, (Poly, Ptr, tuple))])))
                v = apn(app2, others)
                tgt = args[sret[0]]
                if tgt.v is not None: raise AnalysisError('conditional sret')
                o = self.wobj(st, tgt.leaf.base)
                c = pconst(tgt.leaf.off)
                if c is None: raise AnalysisError('sret at symbolic offset')
                if c == 0: o.cells = {}; o.regions = []; o.log = (); o.dflt = ('out', v)
                else: 
                    for k in [k for k in o.cells if k >= c]: del o.cells[k]
                    o.regions = [r for r in o.regions if r[0] < c] + [(c, c + 1000000, ('out', v), -c)]
                return
            if rid is not None: self.env[rid] = apn(app, args)
            return
        # effectful call
        ks = []
        for x in args:
            ks.append(self.argterm(st, x))
        name = nm
        e = mk_call(g, name, tuple(ks), loc_of(i))
        self.effects.append(e)
        seq = sum(1 for z in self.effects if z.kind == 'call' and z.name == name)
        callatom = atom(('effcall', name, seq, tuple(ks)), [k for k in ks if isinstance(k, (Node, tuple))])
        if rid is not None:
            self.env[rid] = self.typed_atom(callatom if i['ty'] != '' else callatom, i['ty'])
        if kind in ('default', 'clobber', 'effect'):
            ro = set(i.get('ro') or [])
            for k, x in enumerate(args):
                if k in ro: continue
                if kind == 'effect': continue
                for l in leaves(x):
                    if isinstance(l, Ptr) and l.base[0] != 'null' and not (l.base[0] == 'g' and self.mod['gl'].get(l.base[1], {}).get('const')):
                        o = self.wobj(st, l.base); o.cells = {}; o.regions = []; o.log = ()
                        o.dflt = ('out', pvar(callatom), k)
    def argterm(self, st, x):
        if isinstance(x, dict): return tuple(sorted((k, v) for k, v in x.items()))
        ls = leaves(x)
        if len(ls) == 1 and isinstance(ls[0], Ptr) and ls[0].base[0] in ('alloca', 'new'):
            return ('obj', self.snapshot(st, ls[0].base), ls[0].off)
        return x
    def rule(self, nm):
        for r, k in self.rules:
            if r.search(nm): return k
        return None
    def intrinsic(self, intr, i, args, st, g):
        rid = i.get('id')
        n = intr.replace('llvm.', '')
        if n.startswith(('lifetime', 'dbg', 'assume', 'expect', 'donothing', 'experimental', 'stacksave', 'stackrestore', 'prefetch', 'invariant')):
            if n.startswith('expect'): self.env[rid] = args[0]
            elif rid is not None: self.env[rid] = UN
            return
        if n.startswith(('memcpy', 'memmove')):
            sz = args[2]; d, s = args[0], args[1]
            nn = pconst(sz.leaf) if sz.v is None and isinstance(sz.leaf, Poly) else None
            if d.v is None and s.v is None:
                self.copy_mem(st, d.leaf, s.leaf, nn, T, loc_of(i)); return
            raise AnalysisError('memcpy through conditional pointer')
        if n.startswith('memset'):
            d, v, sz = args[0], args[1], args[2]
            nn = pconst(sz.leaf) if sz.v is None and isinstance(sz.leaf, Poly) else None
            if d.v is None and isinstance(d.leaf, Ptr) and pconst(d.leaf.off) is not None and nn is not None and v.leaf is ZERO:
                o = self.wobj(st, d.leaf.base); c = pconst(d.leaf.off)
                for k in [k for k, (s, w) in o.cells.items() if k < c + nn and c < k + s]: o.cells.pop(k)
                o.regions = o.regions + [(c, c + nn, ('zero',), 0)]
                return
            if d.v is None and isinstance(d.leaf, Ptr):
                o = self.wobj(st, d.leaf.base)
                o.log = o.log + (mk_store(self.curguard, d.leaf.off, 1, leaf(pvar(atom(('memset', v, sz), (v, sz)))), loc_of(i)),)
                return
            raise AnalysisError('memset')
        m = {'fabs': 'fabs', 'sqrt': 'sqrt', 'sin': 'sin', 'cos': 'cos', 'exp': 'exp', 'log': 'log', 'pow': 'pow', 'floor': 'floor', 'ceil': 'ceil', 'tan': 'tan', 'log10': 'log10', 'round': 'round', 'trunc': 'trunc', 'exp2': 'exp2', 'log2': 'log2'}
        b = n.split('.')[0]
        if b in m:
            self.env[rid] = apn(lambda *xs: fpapp(m[b], xs), args); return
        if b == 'fmuladd' or b == 'fma':
            self.env[rid] = ap2('add', _addf, ap2('mul', _mulf, args[0], args[1]), args[2]); return
        if b in ('smax', 'smin', 'umax', 'umin', 'maxnum', 'minnum'):
            if b in ('maxnum', 'minnum'): c = fcmp('ogt' if b == 'maxnum' else 'olt', args[0], args[1])
            else: c = self.icmp({'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[b], args[0], args[1])
            self.env[rid] = ite(c, args[0], args[1]); return
        if b == 'abs':
            c = self.icmp('slt', args[0], leaf(ZERO)); self.env[rid] = ite(c, ap1('neg', lambda x: pneg(x) if isinstance(x, Poly) else x, args[0]), args[0]); return
        if n.startswith(('umul.with', 'smul.with')):
            self.env[rid] = {(0,): ap2('mul', _mulf, args[0], args[1]), (1,): F}; return
        if n.startswith(('uadd.with', 'sadd.with')):
            self.env[rid] = {(0,): ap2('add', _addf, args[0], args[1]), (1,): F}; return
        if n.startswith('is.constant'): self.env[rid] = F; return
        if n.startswith('objectsize'): self.env[rid] = leaf(const(-1)); return
        if n.startswith('trap'): return
        if n.startswith('eh.typeid'): self.env[rid] = leaf(ZERO); return
        raise AnalysisError('unsupported intrinsic ' + intr)

def operands(i):
    for o in i.get('ops', []): yield o
    for o in i.get('args', []) if i['op'] in ('call', 'invoke') else []: yield o
    if i['op'] == 'phi':
        for v, p in i['in']: yield v
    if i['op'] == 'getelementptr':
        yield i['ptr']
        for v, s in i['var']: yield v
    if 'cond' in i: yield i['cond']
    if 'callee' in i: yield i['callee']

def fconst(x):
    if isinstance(x, str) or x != x or x in (float('inf'), float('-inf')):
        return pvar(atom(('fspecial', str(x))))
    f = Fraction(x)
    # decimal literals keep their decimal meaning (real-number semantics)
    d = Fraction(repr(x))
    if float(d) == x and d.denominator < f.denominator: f = d
    return const(f)
def uf(name, *xs):
    if any(x is UNDEF for x in xs): return UNDEF
    return pvar(atom(('uf', name) + xs, xs))
def fpapp(name, xs):
    if any(x is UNDEF for x in xs): return UNDEF
    if name in ('fabs', 'abs') and pconst(xs[0]) is not None: return const(abs(pconst(xs[0])))
    if name in ('fabs', 'abs'):
        x = xs[0]
        if TM.lead_sign(x) < 0: x = pneg(x)
        return uf('fabs', x)
    if name == 'pow' and pconst(xs[1]) in (2, 3, 4) : 
        r = ONE
        for _ in range(int(pconst(xs[1]))): r = pmul(r, xs[0])
        return r
    if name == 'pow' and pconst(xs[1]) == 1: return xs[0]
    if name in ('fmax', 'fmin'):
        c = flt0(psub(xs[1], xs[0]) if name == 'fmax' else psub(xs[0], xs[1]))
        return ite(c, leaf(xs[0]), leaf(xs[1]))
    return uf(name, *xs)
def b2i(x):
    if x is True: return ONE
    if x is False: return ZERO
    return x
def trunc1(x):
    if not isinstance(x, Poly): return x
    c = pconst(x)
    if c is not None: return bool(int(c) & 1)
    return bnot(eq0(x))
def fptoi(x):
    if not isinstance(x, Poly): return x
    if all(not isinstance(c, Fraction) for _, c in x.t) and all(is_int_atom(a) and e > 0 for m, _ in x.t for a, e in m): return x
    c = pconst(x)
    if c is not None: return const(int(c))
    return pvar(atom(('uf', 'fptosi', x), (x,)))
INT_ARGS = set()
def is_int_atom(a):
    k = TM.atom_key(a)
    if k[0] == 'ld': return k[3].startswith('i')
    if k[0] in ('sdiv', 'fdivpos', 'idx', 'addr'): return True
    if k[0] == 'arg': return k[1] in INT_ARGS
    return False
def i2p(x):
    if isinstance(x, Poly):
        for m, c in x.t:
            if len(m) == 1 and c == 1 and m[0][1] == 1 and TM.atom_key(m[0][0])[0] == 'addr':
                return mkptr(TM.atom_key(m[0][0])[1], psub(x, pvar(m[0][0])))
        if x is ZERO: return mkptr(('null',), ZERO)
        return mkptr(('sym', atom(('asptr', x), (x,))), ZERO)
    return x
def ptradd(p, o):
    if not isinstance(p, Ptr) or not isinstance(o, Poly): return UNDEF
    return mkptr(p.base, padd(p.off, o))
def ldiff(x, y):
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        if x.base == y.base: return psub(x.off, y.off)
        return UNDEF
    if isinstance(x, Poly) and isinstance(y, Poly): return psub(x, y)
    return UNDEF
def laddo(x, y):
    if isinstance(x, Ptr) and isinstance(y, Poly): return mkptr(x.base, padd(x.off, y))
    if isinstance(x, Poly) and isinstance(y, Poly): return padd(x, y)
    return UNDEF
def aspoly(x):
    if isinstance(x, Ptr):
        if x.off is ZERO and x.base[0] == 'sym': return pvar(x.base[1])
        return pvar(atom(('ptrval', x), (x,)))
    if isinstance(x, bool): return ONE if x else ZERO
    if x is UNDEF: return pvar(atom(('undefval',)))
    return x
def mksum(x, d, nat):
    if not isinstance(x, Poly): return x
    h = 1 + bvheight(d)
    body = subst(d, {nat: pvar(atom(('bv', h, 'n')))})
    c = pconst(x)
    if nat not in support(d) and d.v is None: return pmul(x, d.leaf)
    return mk_sum(x, h, body)
def mk_sum(x, h, body):
    """sum_{h<x} body, the upper bound normalised to have no constant term (telescoping)."""
    d = dict(x.t); c = d.pop((), 0)
    if c != 0 and isinstance(c, int) and -4 <= c <= 4 and body.v is None:
        rest = mkpoly(d); b = None
        hv = atom(('bv', h, 'n')); tot = ZERO
        for k in (range(0, c) if c > 0 else range(c, 0)):
            b = subst(body, {hv: padd(rest, const(k))})
            if b.v is not None or not isinstance(b.leaf, Poly): break
            tot = padd(tot, b.leaf if c > 0 else pneg(b.leaf))
        else:
            return padd(pvar(atom(('sum', rest, h, body), (rest, body))), tot) if rest.t else tot
    if not x.t: return ZERO
    return pvar(atom(('sum', x, h, body), (x, body)))
def laddsum(d, n, nat):
    return lambda i: padd(i, mksum(n, d, nat)) if isinstance(i, Poly) else UNDEF
def bv_for(h, j, ty):
    return pvar(atom(('bv', h, j, ty)))
def bvheight(x):
    h = 0
    for a in support(x):
        k = TM.atom_key(a)
        if k[0] == 'bv': h = max(h, k[1])
    return h
def fdivc(p, c):
    """floor(p/c) for a positive constant c"""
    if all(not isinstance(k, Fraction) and k % c == 0 for _, k in p.t): return mkpoly({m: k // c for m, k in p.t})
    d = {}; r = {}
    for m, k in p.t:
        if not isinstance(k, Fraction) and k % c == 0: d[m] = k // c
        else: r[m] = k
    rp = mkpoly(r)
    return padd(mkpoly(d), pvar(atom(('ffloor', rp, const(c)), (rp,))))
def fcmp(pred, a, b):
    def cmp(x, y):
        if x is UNDEF or y is UNDEF: return UNDEF
        d = psub(x, y)
        p = pred[1:] if pred[0] in 'ou' and pred not in ('ord', 'uno') else pred
        if pred == 'ord': return True
        if pred == 'uno': return False
        if p == 'lt': return flt0(d)
        if p == 'gt': return flt0(pneg(d))
        if p == 'le': return bnot(flt0(pneg(d)))
        if p == 'ge': return bnot(flt0(d))
        if p == 'eq': return feq0(d)
        if p == 'ne': return bnot(feq0(d))
        raise AnalysisError('fcmp ' + pred)
    return ap2(('fcmp', pred), cmp, a, b)
def loc_of(i): return i.get('loc')
def g_size(g, seen=None):
    if seen is None: seen = set()
    st = [g]
    while st:
        x = st.pop()
        if x.uid in seen: continue
        seen.add(x.uid)
        if x.v is not None: st += [x.hi, x.lo]
        if len(seen) > 5000: break
    return seen
def collect_vars(n, out, seen=None):
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.uid in seen or x.v is None: continue
        seen.add(x.uid)
        if x.v not in out: out.append(x.v)
        st += [x.hi, x.lo]
def cofactor(n, v, b):
    memo = {}
    def go(x):
        if x.v is None or x.v > v: return x
        if x.v == v: return x.hi if b else x.lo
        r = memo.get(x.uid)
        if r is None: r = memo[x.uid] = node(x.v, go(x.hi), go(x.lo))
        return r
    return go(n)
_rmemo = {}
def restrict(f, c):
    """generalised cofactor: agrees with f wherever c holds."""
    if c is T or f.v is None: return f
    if c is F: return f
    k = (f.uid, c.uid)
    r = _rmemo.get(k)
    if r is not None: return r
    if c.v < f.v:
        r = restrict(f, bor(c.hi, c.lo))
    else:
        ch, cl = (c.hi, c.lo) if c.v == f.v else (c, c)
        if ch is F: r = restrict(f.lo, cl)
        elif cl is F: r = restrict(f.hi, ch)
        else: r = node(f.v, restrict(f.hi, ch), restrict(f.lo, cl))
    _rmemo[k] = r
    return r
def map_entry(e, S):
    if e.kind == 'store':
        return mk_store(S(e.guard), pick(S(e.off) if isinstance(S(e.off), Node) else e.off), e.size, S(e.val), e.loc)
    if e.kind == 'call':
        return mk_call(S(e.guard), e.name, tuple(S(a) for a in e.args), e.loc)
    return mk_forall(S(e.guard), e.n, S(e.cnt), [map_entry(x, S) for x in e.items], e.loc)
def pick(n):
    if isinstance(n, Node):
        if n.v is None: return n.leaf
        return atom_of_node(n)
    return n
def atom_of_node(n): return pvar(atom(('nodeoff', n), (n,)))
def norm_items(items, N, cnt, nat, ctx, cont):
    """while-form vs do-while form: drop the per-iteration continuation guard when all items share it."""
    if cont is not T and nat in support(cont) and all(band(i.guard, cont) is i.guard for i in items):
        return [with_guard(i, restrict(i.guard, cont)) for i in items], N
    return items, cnt
def with_guard(e, g):
    if e.kind == 'store': return mk_store(g, e.off, e.size, e.val, e.loc)
    if e.kind == 'call': return mk_call(g, e.name, e.args, e.loc)
    return mk_forall(g, e.n, e.cnt, e.items, e.loc)

from terms import _addf, _mulf

def peq_ptr(x, y):
    if x is y: return T
    bx, by = x.base, y.base
    if bx == by: return eq0(psub(x.off, y.off))
    distinct = ('alloca', 'new', 'g', 'null')
    if bx[0] in distinct and by[0] in distinct: return F
    if bx[0] == 'alloca' or by[0] == 'alloca' or bx[0] == 'new' or by[0] == 'new': return F
    k = tuple(sorted([(show_base(bx), x), (show_base(by), y)], key=lambda t: (t[0], str(t[1].off))))
    return bvar(batom(('peq', k[0][1], k[1][1]), (x, y)))
# rebuild hooks -----------------------------------------------------------
OBJV_SZ = {}
TYSZ = {'i64': 8, 'i32': 4, 'i16': 2, 'i8': 1, 'double': 8, 'float': 4, 'ptr': 8}
def _rb_ld(key, sv):
    _, ver, off, ty = key
    v2 = map_tuple(ver, sv)
    o = sv(off)
    sz = OBJV_SZ.get(ver) if isinstance(ver, tuple) and ver and ver[0] == 'objv' else None
    if sz is not None: OBJV_SZ[v2] = sz
    def mk(x):
        if sz is not None:      # the element has become known
            c = pconst(x)
            if c is not None and sz.get(c) == TYSZ.get(ty, 0):
                v = dict(v2[2])[c]
                if isinstance(v, Node): return v
        a = atom(('ld', v2, x, ty), (x, v2))
        if ty == 'ptr': return mkptr(('sym', a), ZERO)
        return pvar(a)
    return ap1n(mk, o)
def ap1n(f, n):
    if not isinstance(n, Node): n = leaf(n)
    return apn(f, [n])
def map_tuple(t, sv):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'sym' and isinstance(t[1], int):
            r = sv(mkptr(t, ZERO))
            if r.v is None and isinstance(r.leaf, Ptr) and r.leaf.off is ZERO: return r.leaf.base
            return ('symn', r)
        return tuple(map_tuple(x, sv) for x in t)
    if isinstance(t, Poly) or isinstance(t, Ptr):
        r = sv(t)
        if isinstance(r, Node) and r.v is None: return r.leaf
        return r
    if isinstance(t, Node): return sv(t)
    return t
REBUILD['ld'] = _rb_ld
def _rb_uf(key, sv):
    args = [sv(x) for x in key[2:]]
    return apn(lambda *xs: fpapp(key[1], xs) if key[1] in ('fabs', 'pow') else uf(key[1], *xs), args)
REBUILD['uf'] = _rb_uf
def _rb_b(key, sv):
    return ap1n(lambda p: (p if isinstance(p, bool) else (True if p is ONE else False if p is ZERO else bvar(batom(('b', p), (p,))))) , sv(key[1]))
REBUILD['b'] = _rb_b
def _rb_sum(key, sv):
    body = sv(key[3])
    return ap1n(lambda x: mk_sum(x, key[2], body) if isinstance(x, Poly) else x, sv(key[1]))
BVT = ('i64', 'i32', 'i8', 'i16', 'i1', 'double', 'float', 'ptr')
def rec_const(c, h, system, j):
    """value of a recurrence after a known small number of steps"""
    cur = [a for a, b in system]
    for i in range(c):
        mp = {atom(('bv', h, 'n')): const(i)}
        for q, v in enumerate(cur):
            w = ap1('aspoly', aspoly, v)
            for ty in BVT:
                at = TM._atom_ids.get(('bv', h, q, ty))
                if at is not None: mp[at] = w
        cur = [subst(b, mp) for a, b in system]
    return cur[j]
def _rb_rec(key, sv):
    _, x, h, system, j, ty = key
    s2 = tuple((sv(a), sv(b)) for a, b in system)
    def mk(x):
        if not isinstance(x, Poly): return x
        c = pconst(x)
        if ty != 'ptr' and isinstance(c, int) and 0 <= c <= 4: return rec_const(c, h, s2, j)
        a = atom(('rec', x, h, s2, j, ty), (x, s2))
        if ty == 'ptr': return mkptr(('sym', a), ZERO)
        return pvar(a)
    return ap1n(mk, sv(x))
REBUILD['rec'] = _rb_rec
def _rb_mu(key, sv):
    k2 = sv(key[2]); s2 = tuple((sv(a), sv(b)) for a, b in key[3])
    return leaf(pvar(atom(('mu', key[1], k2, s2), (k2,) + tuple(z for xy in s2 for z in xy))))
REBUILD['mu'] = _rb_mu
REBUILD['sum'] = _rb_sum
def _rb_ffloor(key, sv):
    c = pconst(key[2])
    return ap1n(lambda p: fdivc(p, c) if isinstance(p, Poly) else p, sv(key[1]))
REBUILD['ffloor'] = _rb_ffloor
REBUILD['peq'] = lambda key, sv: ap2('peq', lambda x, y: peq_ptr(x, y) if isinstance(x, Ptr) and isinstance(y, Ptr) else UNDEF, sv(key[1]), sv(key[2]))
REBUILD['nodeoff'] = lambda key, sv: sv(key[1])

# ---------------------------------------------------------------- loading
def load(paths):
    """read one or several (sharded) IR exports of the same translation unit."""
    if isinstance(paths, str): paths = [paths]
    m = None
    for p in paths:
        x = json.load(open(p))
        for f in x['functions']:
            L = f.get('locs')
            if L:
                for b in f['blocks']:
                    for i in b['insts']:
                        if 'loc' in i: i['loc'] = L[i['loc']]
        if m is None:
            m = x; m['fn'] = {}; m['gl'] = {}
        for f in x['functions']:
            if f['name'] not in m['fn'] or not f['decl']: m['fn'][f['name']] = f
        for g in x['globals']: m['gl'].setdefault(g['name'], g)
        m['structs'].update(x['structs'])
    return m
