"""Equality of canonical results (implementation vs specification)."""
from terms import *
import terms as TM
from vn import *
import model as MD, time

class Mismatch(Exception):
    def __init__(self, msg, loc=None, model=None, direct=False): Exception.__init__(self, msg); self.loc = loc; self.model = model; self.direct = direct

class Cmp:
    def __init__(self, facts=(), alias=None, budget=200000):
        self.ctx = Ctx(tuple(facts)); self.budget = [budget]; self.obligations = 0
        self.alias = alias or {}
        self.upaths = []; self.undecided = 0; self.modelled = 0; self.maxmodel = 12; self.msec = 1.5; self.mtime = 0; self.depth = 0; self.why = ''
    def diff(self, a, b, guard=T, ctx=None):
        """None when a == b under guard on every feasible path, else (path, leaf a, leaf b)."""
        ctx = ctx or self.ctx
        self.obligations += 1
        seen = set()
        def go(g, a, b, ctx):
            if a is b or g is F: return None
            k = (g.uid, a.uid, b.uid, ctx.lits)
            if k in seen: return None
            seen.add(k)
            self.budget[0] -= 1
            if self.budget[0] < 0: raise AnalysisError('comparison budget exhausted')
            v = TM._top(g, a, b)
            if v is None:
                if leaf_eq(a.leaf, b.leaf, ctx): return None
                if not ctx.feasible(): return None
                u = unify(ctx.lits, a.leaf, b.leaf)
                if u is not None:
                    if u == 'empty': return None
                    return go(T, u[1], u[2], Ctx(u[0]))
                if self.modelled >= self.maxmodel: self.undecided += 1; return None
                t0 = time.time()
                m = MD.search(ctx.lits, a.leaf, b.leaf, seconds=self.msec)
                self.mtime += time.time() - t0
                if m is None:
                    self.undecided += 1; self.modelled += 1; self.upaths.append((ctx.lits, a.leaf, b.leaf))
                    return None
                return (ctx, a.leaf, b.leaf, m)
            d = ctx.decide(v)
            for val in (True, False):
                if d is not None and d != val: continue
                r = go(cof(g, v, val), cof(a, v, val), cof(b, v, val), ctx.add(v, val))
                if r: return r
            return None
        return go(guard, a, b, ctx)
    def same(self, what, a, b, guard=T, loc=None, ctx=None):
        if not isinstance(a, Node): a = leaf(a)
        if not isinstance(b, Node): b = leaf(b)
        r = self.diff(a, b, guard, ctx)
        if r:
            ctx, x, y, m = r
            path = ' && '.join(show_lit(i, bb) for i, bb in ctx.lits) or 'always'
            raise Mismatch(f'{what}: code computes {show(x)} where the specification requires {show(y)}  [for example with {MD.show_model(m, ctx.lits, x, y)[:400]}; path: {path[:700]}]', loc, m, self.depth == 0)
    def term(self, what, x, y, guard, loc=None, ctx=None):
        """structural comparison of snapshots/arguments"""
        if isinstance(x, (Poly, Ptr, Node)) and isinstance(y, (Poly, Ptr, Node)): return self.same(what, x if isinstance(x, Node) else leaf(x), y if isinstance(y, Node) else leaf(y), guard, loc, ctx)
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y): raise Mismatch(f'{what}: {show(x)} vs {show(y)}', loc)
            for p, q in zip(x, y): self.term(what, p, q, guard, loc, ctx)
            return
        if x != y: raise Mismatch(f'{what}: {show(x)} vs {show(y)}', loc)
    def entries(self, *a, **k):
        self.depth += 1
        r = self._entries(*a, **k)      # an exception aborts the comparison
        self.depth -= 1
        return r
    def _entries(self, what, la, lb, guard, ctx=None):
        ctx = ctx or self.ctx
        la = [e for e in la if not self.dead(band(guard, e.guard), ctx)]
        lb = [e for e in lb if not self.dead(band(guard, e.guard), ctx)]
        if len(la) != len(lb): la, lb = self.joined(la, guard, ctx), self.joined(lb, guard, ctx)
        if len(la) != len(lb):
            x = (la or lb)[-1] if len(la) != len(lb) else None
            raise Mismatch(f'{what}: {len(la)} effect(s) in the code, {len(lb)} in the specification; code: {[ent_show(e) for e in la]} spec: {[ent_show(e) for e in lb]}', (la[-1].loc if la else None))
        # order-insensitive matching (stores/calls are matched greedily)
        used = set()
        for i, e in enumerate(la):
            last = None
            for j in [i] + [j for j in range(len(lb)) if j != i]:
                if j in used: continue
                d0 = self.depth
                try:
                    self.entry(what, e, lb[j], guard, ctx); used.add(j); last = None; break
                except Mismatch as m:
                    self.depth = d0
                    if last is None: last = m
            if last is not None: raise last
    def joined(self, l, guard, ctx):
        """calls of one function on exclusive conditions are one call whose arguments depend on the condition"""
        out = []
        for e in l:
            hit = None
            if e.kind == 'call':
                for k, o in enumerate(out):
                    if o.kind == 'call' and o.name == e.name and len(o.args) == len(e.args) and self.dead(band(guard, band(o.guard, e.guard)), ctx) and all((isinstance(x, Node) and isinstance(y, Node)) or x == y for x, y in zip(o.args, e.args)): hit = k; break
            if hit is None: out.append(e)
            else:
                o = out[hit]
                out[hit] = mk_call(bor(o.guard, e.guard), e.name, tuple(ite(o.guard, x, y) if isinstance(x, Node) and isinstance(y, Node) else x for x, y in zip(o.args, e.args)), e.loc)
        return out
    def dead(self, g, ctx):
        return self.diff(g, F, T, ctx) is None
    def entry(self, what, a, b, guard, ctx):
        if a.kind != b.kind: raise Mismatch(f'{what}: {ent_show(a)} vs specified {ent_show(b)}', a.loc)
        self.same(what + ' (condition)', a.guard, b.guard, guard, a.loc, ctx)
        g = band(guard, a.guard)
        if a.kind == 'store':
            self.same(what + ' (address)', leaf(a.off) if not isinstance(a.off, Node) else a.off, leaf(b.off) if not isinstance(b.off, Node) else b.off, g, a.loc, ctx)
            if a.size != b.size: raise Mismatch(f'{what}: store size {a.size} vs {b.size}', a.loc)
            self.same(what + ' (value)', a.val, b.val, g, a.loc, ctx)
        elif a.kind == 'call':
            if a.name != b.name and self.alias.get(a.name, a.name) != self.alias.get(b.name, b.name): raise Mismatch(f'{what}: calls {a.name} vs specified {b.name}', a.loc)
            if len(a.args) != len(b.args): raise Mismatch(f'{what}: argument counts differ', a.loc)
            for k, (x, y) in enumerate(zip(a.args, b.args)): self.term(f'{what} (argument {k} of {a.name})', x, y, g, a.loc, ctx)
        else:
            self.same(what + ' (iteration count)', a.cnt, b.cnt, g, a.loc, ctx)
            n = pvar(a.n)
            lt = ap1('ltn', lambda c: le0(padd(psub(n, c), ONE)) if isinstance(c, Poly) else F, a.cnt)
            if a.n != b.n: raise Mismatch(f'{what}: loop nesting differs', a.loc)
            self.entries(what, a.items, b.items, band(g, lt), ctx)

def leaf_eq(x, y, ctx):
    if x is y: return True
    if isinstance(x, Poly) and isinstance(y, Poly):
        d = psub(x, y)
        if d is ZERO: return True
        if not ctx.lits: return False
        nz = normalise(ctx.lits)
        if nz is None: return True              # infeasible path
        d = deep_sub(d, nz[0])
        if d is ZERO: return True
        return forced_zero(d, ctx)
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        if x.base == y.base: return leaf_eq(x.off, y.off, ctx)
        for i, b in ctx.lits:
            k = TM._batoms[i]
            if b and k[0] == 'peq' and {k[1], k[2]} == {x, y}: return True
        nz = normalise(ctx.lits)
        if nz is None: return True
        if nz[0]:
            a, b = deep_sub_any(x, nz[0]), deep_sub_any(y, nz[0])
            if a is b: return True
        return False
    if type(x) is bool and type(y) is bool: return x == y
    return False
def pin(cur):
    """input symbols that the path condition forces to zero inside products"""
    mp = {}; neg = set()
    for i, b in cur:
        k = TM._batoms[i]
        if k[0] == 'le0' and len(k[1].t) == 2 and not b:
            d = dict(k[1].t)
            if d.get((), 0) == 1:
                m = [m for m in d if m != ()][0]
                if len(m) == 1 and m[0][1] == 1 and d[m] == 1: neg.add(m[0][0])
    for i, b in cur:
        k = TM._batoms[i]
        if k[0] == 'le0' and neg:
            for m, _ in k[1].t:
                if sum(e for _, e in m) > 1:
                    for a, e in m:
                        if a in neg:
                            neg.discard(a)
                            if not TM.feasible(cur + TM._lits_of(le0(psub(ONE, pvar(a))))): mp[a] = ZERO
    return mp
def arith(i):
    r = _arith.get(i)
    if r is None: r = _arith[i] = not any(TM._atoms[a][0] == 'uf' for a in support(TM.bvar(i)))
    return r
_arith = {}
def unify(lits, x, y):
    """quotients by a common divisor that the path condition forces to be equal are merged; None: nothing to merge"""
    cur = tuple(lits); merged = False; stage = 0
    for rnd in range(12):
        sup = set()
        for i, b in cur: sup |= support(TM.bvar(i))
        for l in (x, y):
            if isinstance(l, (Poly, Ptr, Node)): sup |= support(l)
        g = {}; sd = []
        for a in sorted(sup):
            k = TM._atoms[a]
            if k[0] == 'fdivpos': g.setdefault(k[2], []).append(a)
            elif k[0] == 'sdiv' and isinstance(pconst(k[2]), int) and pconst(k[2]) > 0: sd.append(a)
        if not g and not sd: break
        hit = None
        ar = tuple(l for l in cur if arith(l[0]))
        if stage == 0:
            stage = 1
            nz = TM.normalise(tuple(sorted(set(ar))))
            if nz is None: return 'empty'
            mp = {a: q for a, q in nz[0] if a not in support(q) and TM._atoms[a][0] == 'arg'}
            if mp and not any(k in support(q) for q in mp.values() for k in mp): hit = mp
        if stage == 1 and not hit:
            stage = 2
            mp = pin(ar)
            if mp: hit = mp
        if not hit:
            for a in sd:
                k = TM._atoms[a]
                if (ar, a) in _nouni: continue
                if not TM.feasible(ar + TM._lits_of(le0(padd(k[1], ONE)))): hit = {a: pvar(TM.atom(('fdivpos', k[1], k[2]), TM._akids[a] - {a}))}; break
                _nouni.add((ar, a))
        for d, as_ in g.items():
            if hit: break
            for i in range(len(as_)):
                for j in range(i):
                    q = psub(pvar(as_[i]), pvar(as_[j]))
                    if (ar, q) in _nouni: continue
                    f = (TM._lits_of(le0(padd(q, ONE))), TM._lits_of(le0(psub(ONE, q))))
                    if all(not TM.feasible(ar + z) for z in f): hit = (as_[i], as_[j]); break
                    _nouni.add((ar, q))
                if hit: break
            if hit: break
        if not hit: break
        merged = True
        if type(hit) is dict: mp = hit
        else:
            a, b = hit
            if b in TM._akids[a]: pass
            elif a in TM._akids[b]: a, b = b, a
            mp = {a: pvar(b)}
        new = {}
        for i, v in cur:
            n = subst(TM.bvar(i), mp)
            if n is T or n is F:
                if (n is T) != v: return 'empty'
                continue
            if n.hi is T and n.lo is F: w = v
            elif n.hi is F and n.lo is T: w = not v
            else: new[i] = v; continue
            if new.get(n.v, w) != w: return 'empty'
            new[n.v] = w
        cur = tuple(sorted(new.items()))
        x, y = [subst(l if isinstance(l, Node) else leaf(l), mp) for l in (x, y)]
    if not merged: return None
    return cur, (x if isinstance(x, Node) else leaf(x)), (y if isinstance(y, Node) else leaf(y))
_nouni = set()
def deep_sub(p, sub):
    r = deep_sub_any(p, sub)
    return r if isinstance(r, Poly) else p
def deep_sub_any(p, sub):
    """substitute path equalities, also inside opaque terms"""
    keys = {a: q for a, q in sub}
    if not (support(p) & frozenset(keys)): return p
    r = p
    for a, q in sub:
        if a in support(r):
            n = subst(leaf(r), {a: q})
            if n.v is not None: return p
            r = n.leaf
    return r
def forced_zero(d, ctx):
    e = eq0(d) if not any(isinstance(c, Fraction) for _, c in d.t) else feq0(d)
    if e is T: return True
    if e is F: return False
    return ctx.decide(e.v) is (e.hi is T)
def ent_show(e):
    if e.kind == 'store': return f'store@{show(e.off)} := {show(e.val)[:200]} if {show(e.guard)[:200]}'
    if e.kind == 'call': return f'call {e.name}({", ".join(show(a)[:80] for a in e.args)}) if {show(e.guard)[:200]}'
    return f'for n<{show(e.cnt)[:200]} {{ {"; ".join(ent_show(i) for i in e.items)} }} if {show(e.guard)[:200]}'

def externals(state):
    return [b for b in state.mem if b[0] not in ('alloca', 'freed')]

def compare(ri, rs, facts=(), check_dead=('throw', 'assert', 'uaf', 'leak', 'hang'), confirm_s=8.0, **kw):
    """raises Mismatch for a difference that some admissible valuation exhibits"""
    c = Cmp(facts, kw.pop('alias', None))
    notrej = bnot(bor(ri.dead.get('reject', F), rs.dead.get('reject', F)))
    try: _compare(c, ri, rs, notrej, check_dead, **kw)
    except Mismatch as e:
        if e.direct: raise
        for i, b in facts: notrej = band(notrej, TM.bvar(i) if b else bnot(TM.bvar(i)))      # in this case only
        # the summaries have another shape: an alarm needs a valuation on which they act differently
        if e.model is not None:
            m = MD.Model(); m.over = dict(e.model); m.fuel = 400000
            try:
                if m.node(notrej):
                    d = MD.differ(m, ri, rs, check_dead)
                    if d: raise Mismatch(f'{e} => {d}', e.loc, e.model, True)
            except MD.Bad: pass
        r, n = MD.confirm(ri, rs, notrej, check_dead, confirm_s)
        if r: raise Mismatch(f'{r[0]}  [for example with {MD.show_model(r[1])[:400]}; {e}]', e.loc, r[1], True)
        c.undecided += 1; c.why = f'summaries differ in shape, {n} valuations act alike: {str(e)[:300]}'
    return c
def _compare(c, ri, rs, notrej, check_dead=('throw', 'assert', 'uaf', 'leak', 'hang'), ret=True, ignore_bases=(), mem=True, effects=True, bases=None):
    for k in check_dead:
        a, b = ri.dead.get(k, F), rs.dead.get(k, F)
        loc = ri.deadloc.get(k, [(None, None)])[0][1]
        c.same(f'condition for {k}', a, b, notrej, loc)
    for k in ('abort', 'unreachable'):
        # paths stopped by an assertion are outside the comparison unless the specification claims them
        notrej = band(notrej, bnot(ri.dead.get(k, F)))
        if rs.dead.get(k, F) is not F: notrej = band(notrej, bnot(rs.dead[k]))
    for k in check_dead: notrej = band(notrej, bnot(ri.dead.get(k, F)))
    if ret and (ri.ret is not None or rs.ret is not None):
        if isinstance(ri.ret, dict) or isinstance(rs.ret, dict):
            for k in sorted(set(ri.ret) | set(rs.ret)): c.same(f'returned value{list(k)}', ri.ret.get(k, UN), rs.ret.get(k, UN), notrej)
        else: c.same('returned value', ri.ret, rs.ret, notrej)
    if mem:
        bs = []
        for st in (ri.state, rs.state):
            for b in externals(st):
                if b not in bs: bs.append(b)
        for b in bs:
            if b in ignore_bases or (bases is not None and b not in bases): continue
            if b[0] == 'new':       # contents of a block that is given back do not matter (giving it back on some paths only is a leak)
                fr = [st.mem[('freed', b[1])].cells[0][1] for st in (ri.state, rs.state) if ('freed', b[1]) in st.mem]
                if fr and any(x is not leaf(ZERO) for x in fr): continue
            oi = ri.state.mem.get(b); os_ = rs.state.mem.get(b)
            oi = oi or Obj(('undef',) if b[0] == 'new' else ('mem', b)); os_ = os_ or Obj(('undef',) if b[0] == 'new' else ('mem', b))
            if oi.dflt != os_.dflt or oi.regions != os_.regions:
                c.term(f'contents of {show_base(b)}', (oi.dflt, tuple(oi.regions)), (os_.dflt, tuple(os_.regions)), notrej)
            for k in sorted(set(oi.cells) | set(os_.cells)):
                sz = (oi.cells.get(k) or os_.cells.get(k))[0]
                ty = ri.ev.sizety((oi.cells.get(k) or os_.cells.get(k))[1], sz)
                vi = oi.cells[k][1] if k in oi.cells else ri.ev.read(ri.state, mkptr(b, const(k)), sz, ty)
                vs = os_.cells[k][1] if k in os_.cells else rs.ev.read(rs.state, mkptr(b, const(k)), sz, ty)
                c.same(f'memory {show_base(b)}+{k}', vi, vs, notrej)
            c.entries(f'stores to {show_base(b)}', oi.log, os_.log, notrej)
    if effects:
        c.entries('effects', ri.effects, rs.effects, notrej)
    return c

def conds(r, out):
    """every condition tested anywhere in a summary, by occurrence"""
    seen = set()
    def go(x):
        if isinstance(x, Node):
            st = [x]
            while st:
                n = st.pop()
                if n.uid in seen: continue
                seen.add(n.uid)
                if n.v is None: go(n.leaf)
                else: out[n.v] = out.get(n.v, 0) + 1; go(TM._batoms[n.v]); st += [n.hi, n.lo]
        elif isinstance(x, (Poly, Ptr)):
            for a in support(x):
                if ('a', a) not in seen: seen.add(('a', a)); go(TM._atoms[a])
        elif isinstance(x, (tuple, list)):
            for y in x: go(y)
    def ent(e):
        go(e.guard)
        if e.kind == 'store': go(e.off); go(e.val)
        elif e.kind == 'call': go(e.args)
        else:
            go(e.cnt)
            for i in e.items: ent(i)
    for d in r.dead.values(): go(d)
    if isinstance(r.ret, dict):
        for v in r.ret.values(): go(v)
    elif r.ret is not None: go(r.ret)
    for e in r.effects: ent(e)
    for b, o in r.state.mem.items():
        if b[0] in ('alloca', 'freed'): continue
        for sz, v in o.cells.values(): go(v)
        for e in o.log: ent(e)
    return out
def forced_args(facts, atoms_):
    """integer arguments that the facts determine"""
    res = {}
    for a in atoms_:
        if TM._atoms[a][0] != 'arg': continue
        lb = None
        for i, b in facts:
            k = TM._batoms[i]
            if k[0] != 'le0': continue
            d = dict((k[1] if b else psub(ONE, k[1])).t); m = ((a, 1),)
            if d.get(m) == -1 and set(d) <= {m, ()}: lb = max(d.get((), 0), lb) if lb is not None else d.get((), 0)
        if lb is not None and not feasible(tuple(facts) + TM._lits_of(le0(psub(const(lb + 1), pvar(a))))): res[a] = const(lb)
    le = {}
    for i, b in facts:
        k = TM._batoms[i]
        if k[0] == 'le0': q = k[1] if b else psub(ONE, k[1]); le[q] = True
        elif k[0] == 'eq0' and b: le[k[1]] = le[pneg(k[1])] = True
    for q in le:
        if res or pneg(q) not in le: continue
        # q == 0: an argument that occurs linearly is determined by the others
        for a in sorted(atoms_, reverse=True):
            c = dict(q.t).get(((a, 1),))
            if TM._atoms[a][0] == 'arg' and c in (1, -1) and not any(a in support(pvar(x)) for m, _ in q.t for x, _ in m if m != ((a, 1),)):
                v = psub(pvar(a), q) if c == 1 else padd(pvar(a), q)
                if all(TM._atoms[x][0] == 'arg' for x in support(v)): res[a] = v; break
    return res
def compare_cases(ev, ni, ns, seconds=40, maxcases=40, **kw):
    """compare two functions; where the summaries differ only in shape, split on a tested input condition and re-evaluate both sides in each case"""
    end = time.time() + seconds; total = Cmp(); ncases = [0]
    def case(lits, sub, depth):
        ncases[0] += 1
        a = ev(ni, (lits, sub)); b = ev(ns, (lits, sub))
        c = compare(a, b, facts=lits, confirm_s=8.0 if depth == 0 else 2.0, **dict(kw))
        total.obligations += c.obligations
        if not c.undecided: return
        v = None
        if depth < 6 and ncases[0] < maxcases and time.time() < end:
            ca, cb = conds(a, {}), conds(b, {})
            base = set(lits) | set(facts_of(bnot(bor(a.dead.get('reject', F), b.dead.get('reject', F)))))
            cx = Ctx(tuple(base))
            ok = lambda v: TM._bsup[v] and all(TM._atoms[x][0] == 'arg' for x in TM._bsup[v]) and TM._batoms[v][0] in ('le0', 'eq0', 'b', 'arg')
            cand = [v for v in set(ca) ^ set(cb) if ok(v)] or [v for v in set(ca) | set(cb) if ok(v)]
            if cand: v = min(cand, key=lambda v: (len(TM._bsup[v]), len(repr(TM._batoms[v])), v))
        if v is None:
            total.undecided += c.undecided; total.why = c.why or f'{c.undecided} residual path(s) neither shown empty nor inhabited'
            if ncases[0] > 1: total.why += f' (after {ncases[0]} cases)'
            return
        for val in (True, False):
            if total.undecided: return
            f = tuple(base | {(v, val)})
            if not feasible(f): continue
            fx = forced_args(f, sorted(TM._bsup[v] - set(sub)))
            nl = []; s2 = {k: deep_sub(q, list(fx.items())) for k, q in sub.items()}; s2.update(fx); bad = False
            for i, bb in tuple(lits) + ((v, val),):
                n = subst(TM.bvar(i), fx) if fx and TM._bsup[i] & frozenset(fx) else TM.bvar(i)
                if n is T or n is F: bad |= (n is T) != bb; continue
                if n.hi is T and n.lo is F: nl.append((n.v, bb))
                elif n.hi is F and n.lo is T: nl.append((n.v, not bb))
            if bad: continue
            case(tuple(sorted(set(nl))), s2, depth + 1)
    case((), {}, 0)
    total.cases = ncases[0]
    return total

def prove_true(r, facts=(), what='assertion'):
    """the returned boolean is true on every feasible path that is not rejected."""
    c = Cmp(facts)
    g = T
    for k, d in r.dead.items():
        if k == 'reject': g = band(g, bnot(d))
    v = r.ret
    v = ap1('asbool', lambda x: x if isinstance(x, bool) else (bool(pconst(x)) if isinstance(x, Poly) and pconst(x) is not None else UNDEF), v)
    rg = g
    for k, d in r.dead.items():
        if k in ('throw', 'assert', 'uaf', 'leak', 'hang'): c.same(f'condition for {k}', d, F, g, r.deadloc.get(k, [(None, None)])[0][1])
    for k, d in r.dead.items():
        if k != 'reject': rg = band(rg, bnot(d))
    c.same(what, v, T, rg)
    return c
