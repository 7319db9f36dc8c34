"""Inhabitation test for alarms.

When two canonical terms still differ under a path condition that the abstract
domain could not show to be empty, this module looks for a valuation of the
input symbols that satisfies the path condition and separates the two terms.
An alarm is only raised with such a valuation in hand: a residual difference
without one stays `undecided` and is reported as such in the evidence.
Opaque symbols (loads, uninterpreted calls) are interpreted as fixed arbitrary
functions of their evaluated arguments, so congruence is respected; loop
summaries (recurrences, sums, first exit iteration) are unfolded.
"""
import random, time, zlib
from fractions import Fraction
from terms import *
import terms as TM

class Bad(Exception): pass
MAXIT = 300
SIZES = {'i64': 8, 'i32': 4, 'i16': 2, 'i8': 1, 'double': 8, 'float': 4, 'ptr': 8}

class Model:
    def __init__(self, seed=0, lo=-2, hi=6):
        self.over = {}; self.rng = random.Random(seed); self.seed = seed; self.lo = lo; self.hi = hi
        self.touched = None; self.memo = {}; self.env = {}; self.fuel = 60000; self.loopmem = {}; self.impure = 0
    def reset(self): self.memo = {}; self.fuel = 60000; self.env = {}; self.loopmem = {}
    def free(self, key):
        if self.touched is not None: self.touched.add(key)
        if key in self.over: return abs(self.over[key]) if key[0] == 'call' and key[1].endswith('_nn') else self.over[key]
        r = random.Random(zlib.crc32(repr(key).encode()) ^ (self.seed * 2654435761 & 0xffffffff))
        v = r.randint(self.lo, self.hi)
        if key[0] == 'idx' or key[0] == 'call' and key[1].endswith('_nn'): v = abs(v)
        # words handed over by a clobbering call are whole bit patterns
        if key[0] == 'ld' and key[1][:1] == ('out',) and key[3] in ('i32', 'i64'): v = r.getrandbits(32 if key[3] == 'i32' else 63) | r.getrandbits(31)
        self.over[key] = v
        return v
    def bound(self, sup):
        return tuple((a, self.env[a]) for a in self.env if a in sup)
    def atom(self, a):
        if a in self.env: return self.env[a]
        k = ('a', a) + (self.bound(TM._akids[a]) if self.env else ())
        if k in self.memo:
            v, t = self.memo[k]
            if self.touched is not None: self.touched |= t
            return v
        self.fuel -= 1
        if self.fuel < 0: raise Bad
        old = self.touched; self.touched = set(); imp = self.impure
        try: v = self._atom(TM._atoms[a])
        finally: t = self.touched; self.touched = old
        if old is not None: old |= t
        if self.impure == imp: self.memo[k] = (v, t)
        return v
    # bound variables
    def with_env(self, upd, f):
        old = {a: self.env.get(a) for a in upd}
        self.env.update(upd)
        try: return f()
        finally:
            for a, v in old.items():
                if v is None: del self.env[a]
                else: self.env[a] = v
    def bvn(self, h): return TM.atom(('bv', h, 'n'))
    def bvj(self, h, j, tys):
        return TM.atom(('bv', h, j, tys))
    def steps(self, h, system, count, tys):
        """states of the recurrence system: yields (n, {bv atom: value})"""
        cur = [self.asnum(self.node(i)) for i, _ in system]
        n = 0
        while True:
            env = {self.bvn(h): n}
            for j, v in enumerate(cur):
                for ty in ('i64', 'i32', 'i8', 'i16', 'i1', 'double', 'float', 'ptr'):
                    at = TM._atom_ids.get(('bv', h, j, ty))
                    if at is not None: env[at] = v
            yield n, cur, env
            if n >= count: return
            if n > MAXIT: raise Bad
            cur = self.with_env(env, lambda: [self.asnum(self.node(x)) for _, x in system])
            n += 1
    def asnum(self, v):
        if isinstance(v, bool): return int(v)
        return v
    def _atom(self, key):
        kind = key[0]
        if kind == 'fdivpos' or kind == 'sdiv':
            x, y = self.poly(key[1]), self.poly(key[2])
            if y == 0: raise Bad
            q = abs(x) // abs(y)
            return q if (x < 0) == (y < 0) else -q
        if kind == 'ffloor':
            y = self.poly(key[2])
            if y == 0: raise Bad
            return self.poly(key[1]) // y
        if kind == 'polyatom': return self.poly(key[1])
        if kind == 'nodeoff':
            v = self.node(key[1])
            if not isinstance(v, (int, Fraction)): raise Bad
            return v
        if kind == 'uf':
            args = [self.val(x) for x in key[2:]]
            if key[1] in ('fabs', 'abs'): return abs(args[0])
            if key[1] in ('and', 'or', 'xor') and all(isinstance(x, int) for x in args):
                return {'and': args[0] & args[1], 'or': args[0] | args[1], 'xor': args[0] ^ args[1]}[key[1]]
            if key[1] == 'shl' and all(isinstance(x, int) for x in args) and 0 <= args[1] < 64: return args[0] << args[1]
            if key[1] in ('lshr', 'ashr') and all(isinstance(x, int) for x in args) and 0 <= args[1] < 64:
                if args[0] < 0 and key[1] == 'lshr': raise Bad
                return args[0] >> args[1]
            if key[1] in ('shl', 'lshr', 'ashr'): raise Bad
            return self.free(('uf', key[1]) + tuple(args))
        if kind == 'rec':
            _, x, h, system, j, ty = key
            c = self.poly(x)
            if not isinstance(c, int) or c < 0 or c > MAXIT: raise Bad
            for n, cur, env in self.steps(h, system, c, None): v = cur[j]
            return v
        if kind == 'sum':
            _, x, h, body = key
            c = self.poly(x)
            if not isinstance(c, int) or abs(c) > MAXIT: raise Bad
            s = 0
            for i in range(c): s += self.with_env({self.bvn(h): i}, lambda: self.node(body))
            for i in range(c, 0): s -= self.with_env({self.bvn(h): i}, lambda: self.node(body))
            return s
        if kind == 'mu':
            _, h, cont, system = key
            for n, cur, env in self.steps(h, system, 1 << 30, None):
                if not self.with_env(env, lambda: self.node(cont)): return n
        if kind == 'never': raise Bad
        if kind == 'ld' and isinstance(key[1], tuple): return self.mread(key[1], self.poly(key[2]), key[3])
        return self.free(self.tup(key))
    def mread(self, ver, off, ty):
        """contents of a memory version; unknown initial memory is an arbitrary function of the place"""
        t = ver[0] if ver else None
        if t == 'undef': raise Bad
        if t == 'mrg':
            for g, d, regs in ver[1]:
                if self.node(g):
                    for lo, hi, v, sh in reversed(regs):
                        if lo <= off < hi: return self.mread(v, off + sh, ty)
                    return self.mread(d, off, ty)
            raise Bad
        if t in ('logv', 'objv', 'snap'):
            if t == 'objv': d, regs, log, cells = ver[1], (), (), ver[2]
            elif t == 'logv': d, regs, log, cells = ver[1], (), ver[2], ver[3]
            else: d, regs, cells, log = ver[1], ver[2], ver[3], ver[4]
            ev = []
            self.replay(log, ev)
            n = SIZES.get(ty, 8)
            for o, v, sz in reversed(ev):
                if o == off: return self.num(v)
                if not isinstance(o, int) or not isinstance(sz, int) or o < off + n and off < o + sz: raise Bad
            for k, v in cells:
                if k == off: return self.num(self.node(v))
            for lo, hi, v, sh in reversed(regs):
                if lo <= off < hi: return self.mread(v, off + sh, ty)
            return self.mread(d, off, ty)
        if t == 'loopver':
            # the object whose stores are being replayed, at the top of the current iteration
            lm = self.loopmem.get(ver[1])
            if lm is None or ver[2][1] != lm[0]: raise Bad
            self.impure += 1
            n = SIZES.get(ty, 8)
            for e in reversed(lm[1][lm[2]:lm[3]]):
                if e[0] != 'st' or not isinstance(e[1], int): raise Bad
                if e[1] == off and e[2] == n: return self.num(e[3])
                if e[1] < off + n and off < e[1] + e[2]: raise Bad
            return self.mread(ver[2][2], off, ty)
        if t == 'memphi': raise Bad
        if t == 'mem' and ver[1][0] == 'sym' and TM._atoms[ver[1][1]][0] == 'ld': self.atom(ver[1][1])   # raises Bad when it is the address of a known object
        return self.free(('ld', self.tup(ver), off, ty))
    def num(self, v):
        if isinstance(v, bool): return int(v)
        if not isinstance(v, (int, Fraction)): raise Bad
        return v
    def replay(self, keys, out):
        for k in keys:
            if not self.node(k[1]): continue
            if k[0] == 'st': out.append((self.val(k[2]), self.val(k[4]), k[3]))
            elif k[0] == 'fa':
                c = self.node(k[3])
                if not isinstance(c, int) or c > MAXIT: raise Bad
                for i in range(max(c, 0)): self.with_env({k[2]: i}, lambda: self.replay(k[4], out))
    def tup(self, t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == 'sym' and isinstance(t[1], int):
                k = TM._atoms[t[1]]
                if k[0] == 'arg': return k
                return ('sym', self.tup(k) if k[0] in ('ld', 'call', 'effcall') else self.atom(t[1]))
            if t and t[0] == 'loopver': return ('loopver',) + tuple(self.tup(x) for x in t[2:])
            if t and t[0] == 'bv':
                a = TM._atom_ids.get(t)
                if a in self.env: return ('bv', self.env[a])
                raise Bad
            return tuple(self.tup(x) for x in t)
        if isinstance(t, list): return tuple(self.tup(x) for x in t)
        if isinstance(t, (Poly, Ptr, Node)): return self.val(t)
        return t
    def poly(self, p):
        s = 0
        for m, c in p.t:
            x = c
            for a, e in m:
                v = self.atom(a)
                if not isinstance(v, (int, Fraction)): raise Bad
                if e < 0:
                    if v == 0: raise Bad
                    x = x * Fraction(v) ** e
                else: x = x * v ** e
            s += x
        if isinstance(s, Fraction) and s.denominator == 1: s = s.numerator
        return s
    def val(self, x):
        if isinstance(x, Node): return self.node(x)
        if isinstance(x, Poly): return self.poly(x)
        if isinstance(x, Ptr): return ('ptr', self.tup(x.base), self.poly(x.off))
        if isinstance(x, tuple): return self.tup(x)
        if isinstance(x, (bool, int, str, Fraction)): return x
        return ('obj', str(x))
    def node(self, n):
        while n.v is not None: n = n.hi if self.lit(n.v) else n.lo
        return self.val(n.leaf)
    def lit(self, i):
        k = TM._batoms[i]
        if k[0] == 'le0': return self.poly(k[1]) <= 0
        if k[0] in ('eq0', 'feq0'): return self.poly(k[1]) == 0
        if k[0] == 'flt0': return self.poly(k[1]) < 0
        if k[0] == 'peq': return self.val(k[1]) == self.val(k[2])
        if k[0] == 'b':
            v = self.poly(k[1])
            return v % 2 == 1 if isinstance(v, int) else True
        if k[0] == 'exists':
            _, x, h, body = k
            c = self.poly(x)
            if not isinstance(c, int) or c > MAXIT: raise Bad
            return any(self.with_env({self.bvn(h): i}, lambda: self.node(body)) for i in range(c))
        v = self.free(self.tup(k))
        return v % 2 == 1

def search(lits, x, y, seconds=1.5, seed=1, restarts=200, want=None):
    """a model of the literals under which x and y evaluate differently, or None.
    want(model): alternative acceptance test."""
    end = time.time() + seconds
    lits = list(lits)
    for rs in range(restarts):
        if time.time() > end: break
        m = Model(seed * 7919 + rs, *[(-2, 6), (0, 3), (0, 9), (1, 4)][rs % 4])
        rng = random.Random(rs)
        hits = 0
        for step in range(120):
            if step % 8 == 0 and time.time() > end: break
            m.reset()
            try:
                viol = []
                for i, b in lits:
                    try:
                        if m.lit(i) != b: viol.append((i, b))
                    except Bad: viol.append((i, b))
                if not viol:
                    try:
                        if want is not None:
                            if want(m): return dict(m.over)
                        elif m.val(x) != m.val(y): return dict(m.over)
                    except Bad: pass
                    hits += 1
                    if hits > 25: break
                    # same value here: move to a neighbouring model
                    ks = list(m.over)
                    if not ks:
                        if want is not None: break
                        return None
                    for _ in range(rng.randint(1, 3)):
                        k = rng.choice(ks); m.over[k] = m.over[k] + rng.choice([-1, 1, 2])
                    continue
            except Bad:
                pass
            i, b = rng.choice(viol)
            m.reset(); m.touched = set()
            try: m.lit(i)
            except Bad: pass
            ks = [k for k in m.touched if k in m.over]; m.touched = None
            if not ks: break
            best = None
            for k in rng.sample(ks, min(len(ks), 3)):
                o = m.over[k]
                cands = {o + 1, o - 1, o + rng.randint(-4, 4), 0, 1, rng.randint(m.lo, m.hi)}
                cands |= set(root(m, i, k, o))
                cands |= {c ^ o for c in bigconsts(i) if type(o) is int}
                cands.discard(o)
                for c in sorted(cands):
                    if k[0] == 'idx' and c < 0: continue
                    m.over[k] = c; m.reset()
                    sc = 0
                    for j, bb in lits:
                        try:
                            if m.lit(j) != bb: sc += 1 if (j, bb) != (i, b) else 1.5
                        except Bad: sc += 1
                    sc += rng.random() * 1.2
                    if best is None or sc < best[0]: best = (sc, k, c)
                m.over[k] = o
            m.over[best[1]] = best[2]
            if len(m.over) > 4000: break
    return None
_big = {}
def bigconsts(i):
    """large constants a condition mentions (bit masks)"""
    r = _big.get(i)
    if r is None:
        out = set(); seen = set()
        def go(x, d):
            if d > 12 or len(seen) > 400: return
            if isinstance(x, TM.Poly):
                if id(x) in seen: return
                seen.add(id(x))
                for mo, c in x.t:
                    if isinstance(c, int) and 16 < abs(c) < 1 << 33: out.add(abs(c))
                    for a, _ in mo: go(TM._atoms[a], d + 1)
            elif isinstance(x, TM.Node):
                if x.v is None: go(x.leaf, d + 1)
            elif type(x) is tuple:
                for y in x: go(y, d + 1)
            elif type(x) is int and 16 < abs(x) < 1 << 33: out.add(abs(x))
        go(TM._batoms[i], 0)
        r = _big[i] = sorted(out)[:6]
    return r
def root(m, i, k, o):
    key = TM._batoms[i]
    if key[0] not in ('le0', 'eq0', 'flt0', 'feq0'): return
    def ev(v):
        m.over[k] = v; m.reset()
        return m.poly(key[1])
    try:
        a = ev(o); b = ev(o + 1); s = b - a
        m.over[k] = o
        if s:
            r = o - Fraction(a) / s
            f = r.numerator // r.denominator
            for v in (f - 1, f, f + 1, f + 2): yield v
    except Bad: pass
    finally: m.over[k] = o

# ---------------------------------------------------------------- whole summaries
def unroll(m, log, out, base=None):
    """concrete events of an effect log under a valuation"""
    for e in log:
        if not m.node(e.guard): continue
        if e.kind == 'store': out.append(('st', m.val(e.off), e.size, m.val(e.val)))
        elif e.kind == 'call': out.append(('call', e.name) + tuple(m.tup(a) if isinstance(a, tuple) else m.val(a) for a in e.args))
        else:
            c = m.node(e.cnt)
            if not isinstance(c, int) or c > MAXIT: raise Bad
            k = TM._atoms[e.n]; d = k[1] if k[0] == 'idx' and base is not None else None
            old = m.loopmem.get(d); start = len(out)
            try:
                for i in range(max(c, 0)):
                    if d is not None: m.loopmem[d] = (base, out, start, len(out))
                    m.with_env({e.n: i}, lambda: unroll(m, e.items, out, base))
            finally:
                if old is None: m.loopmem.pop(d, None)
                else: m.loopmem[d] = old
    if len(out) > 20000: raise Bad
def effects_of(m, r, check_dead):
    res = {}
    for k in check_dead: res['ends with ' + k] = bool(m.node(r.dead[k])) if k in r.dead else False
    if any(res.values()): return res
    for k in ('abort', 'unreachable'):
        if k in r.dead and m.node(r.dead[k]): raise Bad
    if r.ret is not None:
        if isinstance(r.ret, dict):
            for k, v in r.ret.items(): res[f'returned value{list(k)}'] = m.node(v)
        else: res['returned value'] = m.node(r.ret)
    evs = []
    unroll(m, r.effects, evs)
    res['calls'] = tuple(sorted(map(repr, evs)))
    mem = {}
    for b, o in r.state.mem.items():
        if b[0] in ('alloca', 'freed'): continue
        if b[0] == 'new' and ('freed', b[1]) in r.state.mem and m.node(r.state.mem[('freed', b[1])].cells[0][1]) == 1: continue
        bv = m.tup(b)
        c = {}
        for k, (sz, v) in o.cells.items(): c[k] = (sz, m.node(v))
        l = []
        unroll(m, o.log, l, b)
        for e in l:
            if e[0] == 'st': c[e[1]] = (e[2], e[3])
        d = mem.setdefault(bv, {})
        for k, (sz, v) in c.items():
            # unchanged contents do not count as written
            if any(repr(v) == repr(m.over.get(m_ld(m, o.dflt, k, ty))) for ty in ('double', 'i32', 'i64', 'float', 'i8')): continue
            d[k] = (sz, v)
    res['memory'] = {b: d for b, d in mem.items() if d}
    return res
def m_ld(m, dflt, off, ty):
    return ('ld', m.tup(dflt) if isinstance(dflt, tuple) else dflt, off, ty)
def differ(m, ri, rs, check_dead):
    a = effects_of(m, ri, check_dead); b = effects_of(m, rs, check_dead)
    if a == b: return None
    for k in a:
        if k == 'memory' or a[k] == b.get(k): continue
        return f'{k}: {str(a[k])[:200]} where {str(b.get(k))[:200]} is required'
    for k in set(a.get('memory', {})) | set(b.get('memory', {})):
        x, y = a.get('memory', {}).get(k, {}), b.get('memory', {}).get(k, {})
        for o in sorted(set(x) | set(y), key=repr):
            if x.get(o) != y.get(o): return f'memory {k}+{o}: {x.get(o, "unchanged")} where {y.get(o, "unchanged")} is required'
    return 'results differ'
def confirm(ri, rs, notrej, check_dead, seconds=8.0, seed=11):
    """(description, model) of a valuation under which the two summaries act differently, else None; second value: number of valuations compared"""
    rng = random.Random(seed); end = time.time() + seconds
    seen = [0]; found = []
    logs = []
    for r in (ri, rs):
        for e in r.effects: logs.append(e.guard)
        for b, o in r.state.mem.items():
            if b[0] not in ('alloca', 'freed'): logs += [e.guard for e in o.log]
        for k in check_dead:
            if k in r.dead: logs.append(r.dead[k])
    k = 0
    while time.time() < end and seen[0] < 400:
        k += 1
        g = notrej
        if logs and rng.random() < 0.7: g = band(notrej, rng.choice(logs))
        n = g; lits = []
        while n.v is not None:
            b = rng.random() < 0.5
            if (n.hi if b else n.lo) is F: b = not b
            lits.append((n.v, b)); n = n.hi if b else n.lo
        if n is not T: continue
        if not feasible(tuple(sorted(lits))): continue
        def want(m):
            seen[0] += 1
            m.fuel = 400000
            d = differ(m, ri, rs, check_dead)
            if d: found.append(d)
            return bool(d)
        mod = search(lits, None, None, seconds=min(1.5, max(0.1, end - time.time())), seed=k, restarts=4, want=want)
        if mod is not None and found: return (found[-1], mod), seen[0]
    return None, seen[0]

def show_model(mod, lits=(), x=None, y=None):
    out = []
    for k, v in mod.items():
        if k[0] == 'arg': out.append(f'{k[1]}={v}')
    return ', '.join(out[:40])
