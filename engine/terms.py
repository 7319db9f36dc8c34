"""Canonical terms for the value-numbering analysis.

 * Poly   - hash-consed multivariate polynomials with rational coefficients over
            interned atoms (function arguments, opaque loads, uninterpreted
            applications, loop indices).  Used for integers (no-overflow
            semantics) and for floating point values (exact-real semantics).
 * Node   - hash-consed decision diagrams whose inner nodes test boolean atoms
            and whose leaves are Poly / Ptr / bool / UNDEF.
 * Ctx    - conjunctive facts + emptiness test in the domain of linear
            inequalities (Fourier-Motzkin), with integer tightening and a
            bounded set of product inferences for non-linear monomials.
"""
import sys
from fractions import Fraction
from functools import reduce
from math import gcd
sys.setrecursionlimit(100000)

class AnalysisError(Exception):
    pass

# ---------------------------------------------------------------- atoms
_atom_ids = {}
_atoms = []
_akids = []          # atoms (transitively) mentioned inside
def atom(key, kids=()):
    """key: hashable tuple; kids: iterable of Values mentioned by it."""
    i = _atom_ids.get(key)
    if i is None:
        i = len(_atoms)
        _atom_ids[key] = i
        _atoms.append(key)
        s = set()
        for k in kids:
            s |= support(k)
        s.add(i)
        _akids.append(frozenset(s))
    return i
def atom_key(i): return _atoms[i]

# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ('t', 'h', '_sup')
    def __repr__(self): return show_poly(self)
_polys = {}
def mkpoly(d):
    items = tuple(sorted((m, c) for m, c in d.items() if c != 0))
    p = _polys.get(items)
    if p is None:
        p = Poly(); p.t = items; p.h = hash(items); p._sup = None
        _polys[items] = p
    return p
def const(c):
    if isinstance(c, Fraction) and c.denominator == 1: c = c.numerator
    return mkpoly({(): c})
ZERO = mkpoly({}); ONE = const(1)
def pvar(a): return mkpoly({((a, 1),): 1})
def pconst(p):
    if not p.t: return 0
    if len(p.t) == 1 and p.t[0][0] == (): return p.t[0][1]
    return None
def padd(a, b):
    d = dict(a.t)
    for m, c in b.t: d[m] = d.get(m, 0) + c
    return mkpoly(d)
def pscale(a, k):
    if isinstance(k, Fraction) and k.denominator == 1: k = k.numerator
    return mkpoly({m: c * k for m, c in a.t})
def pneg(a): return pscale(a, -1)
def psub(a, b): return padd(a, pneg(b))
def mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e != 0))
def pmul(a, b):
    if len(a.t) * len(b.t) > 60000: raise AnalysisError('polynomial too large')
    d = {}
    for m, c in a.t:
        for n, k in b.t:
            x = mmul(m, n); d[x] = d.get(x, 0) + c * k
    return mkpoly(d)
def norm_frac(c):
    return c.numerator if isinstance(c, Fraction) and c.denominator == 1 else c
def pinv(q):
    """1/q over the reals."""
    c = pconst(q)
    if c is not None:
        if c == 0: return pvar(atom(('inv0',)))
        return const(Fraction(1) / c)
    if len(q.t) == 1:
        m, c = q.t[0]
        return mkpoly({tuple((a, -e) for a, e in m): norm_frac(Fraction(1) / c)})
    lead = q.t[-1][1]
    qn = pscale(q, Fraction(1) / lead)
    a = atom(('polyatom', qn), (qn,))
    return mkpoly({((a, -1),): norm_frac(Fraction(1) / lead)})
def pdiv_real(p, q):
    if p is q and pconst(q) != 0: return ONE
    r = pmul(p, pinv(q))
    # cancel  q * inv(q)
    if len(q.t) > 1 and len(p.t) >= len(q.t):
        x = pexact(p, q)
        if x is not None: return x
    return r
def pexact(p, q):
    """p/q when q divides p exactly as polynomials, else None."""
    if q is ZERO: return None
    r = p; out = ZERO
    lm, lc = max(q.t, key=lambda t: (sum(e for _, e in t[0]), t[0]))
    for _ in range(60):
        if r is ZERO: return out
        found = None
        for m, c in sorted(r.t, key=lambda t: (-sum(e for _, e in t[0]), t[0])):
            dm = mmul(m, tuple((a, -e) for a, e in lm))
            if all(e > 0 for _, e in dm):
                found = (dm, norm_frac(Fraction(c) / lc)); break
        if not found: return None
        t = mkpoly({found[0]: found[1]})
        out = padd(out, t); r2 = psub(r, pmul(t, q))
        if len(r2.t) > len(r.t) + 6: return None
        r = r2
    return None

# ---------------------------------------------------------------- pointers
class Ptr:
    __slots__ = ('base', 'off')
    def __init__(self, base, off): self.base = base; self.off = off
    def __repr__(self): return show(self)
_ptrs = {}
def mkptr(base, off):
    k = (base, off)
    p = _ptrs.get(k)
    if p is None: p = _ptrs[k] = Ptr(base, off)
    return p
class _Undef:
    def __repr__(self): return 'undef'
UNDEF = _Undef()
class Fn:
    __slots__ = ('name', 'dem')
    def __init__(s, n, d): s.name = n; s.dem = d
    def __repr__(s): return s.dem
_fns = {}
def mkfn(n, d):
    if n not in _fns: _fns[n] = Fn(n, d)
    return _fns[n]

# ---------------------------------------------------------------- decision diagrams
class Node:
    __slots__ = ('v', 'hi', 'lo', 'leaf', '_sup', 'uid')
    def __repr__(self): return show(self)
_nodes = {}; _leaves = {}
_uid = [0]
def leaf(x):
    k = ('B', x) if isinstance(x, bool) else x
    n = _leaves.get(k)
    if n is None:
        n = Node(); n.v = None; n.leaf = x; n.hi = n.lo = None; n._sup = None
        _uid[0] += 1; n.uid = _uid[0]
        _leaves[k] = n
    return n
def node(v, hi, lo):
    if hi is lo: return hi
    k = (v, hi.uid, lo.uid)
    n = _nodes.get(k)
    if n is None:
        n = Node(); n.v = v; n.hi = hi; n.lo = lo; n.leaf = None; n._sup = None
        _uid[0] += 1; n.uid = _uid[0]
        _nodes[k] = n
    return n
T = leaf(True); F = leaf(False)
UN = leaf(UNDEF)
# boolean atoms are interned in order of creation => variable order
_batoms = []; _bids = {}; _bsup = []
def batom(key, kids=()):
    i = _bids.get(key)
    if i is None:
        i = len(_batoms); _bids[key] = i; _batoms.append(key)
        s = set()
        for k in kids: s |= support(k)
        _bsup.append(frozenset(s))
    return i
def bvar(i): return node(i, T, F)

def support(x):
    if isinstance(x, Poly):
        if x._sup is None:
            s = set()
            for m, _ in x.t:
                for a, _e in m: s |= _akids[a]
            x._sup = frozenset(s)
        return x._sup
    if isinstance(x, Ptr):
        return base_support(x.base) | support(x.off)
    if isinstance(x, Node):
        if x._sup is None:
            if x.v is None: x._sup = support(x.leaf)
            else: x._sup = frozenset(_bsup[x.v] | support(x.hi) | support(x.lo))
        return x._sup
    if isinstance(x, (tuple, list)):
        if len(x) == 2 and x[0] == 'sym' and isinstance(x[1], int): return _akids[x[1]]
        s = frozenset()
        for y in x: s = s | support(y)
        return s
    return frozenset()
def base_support(b):
    if b[0] == 'sym': return _akids[b[1]]
    return frozenset()

def _top(*ns):
    v = None
    for n in ns:
        if n.v is not None and (v is None or n.v < v): v = n.v
    return v
def cof(n, v, b):
    if n.v == v: return n.hi if b else n.lo
    return n
_memo_ite = {}
def ite(c, a, b):
    if c is T: return a
    if c is F: return b
    if a is b: return a
    if a is T and b is F: return c
    k = (c.uid, a.uid, b.uid)
    r = _memo_ite.get(k)
    if r is None:
        v = _top(c, a, b)
        r = node(v, ite(cof(c, v, 1), cof(a, v, 1), cof(b, v, 1)), ite(cof(c, v, 0), cof(a, v, 0), cof(b, v, 0)))
        _memo_ite[k] = r
    return r
def bnot(a): return ite(a, F, T)
def band(a, b): return ite(a, b, F)
def bor(a, b): return ite(a, T, b)
def bxor(a, b): return ite(a, bnot(b), b)
_memo_ap = {}
MAXN = 400000
def ap2(name, f, a, b):
    """f on leaves; may return Node (e.g. a comparison)."""
    k = (name, a.uid, b.uid)
    r = _memo_ap.get(k)
    if r is None:
        v = _top(a, b)
        if v is None:
            r = f(a.leaf, b.leaf)
            if not isinstance(r, Node): r = leaf(r)
        else:
            r = ite(bvar(v), ap2(name, f, cof(a, v, 1), cof(b, v, 1)), ap2(name, f, cof(a, v, 0), cof(b, v, 0)))
        _memo_ap[k] = r
        if len(_memo_ap) > 4000000: raise AnalysisError('diagram too large')
    return r
def ap1(name, f, a):
    k = (name, a.uid)
    r = _memo_ap.get(k)
    if r is None:
        if a.v is None:
            r = f(a.leaf)
            if not isinstance(r, Node): r = leaf(r)
        else:
            r = ite(bvar(a.v), ap1(name, f, a.hi), ap1(name, f, a.lo))
        _memo_ap[k] = r
    return r
def apn(f, args):
    """uninterpreted application over several diagrams (no memo name)."""
    memo = {}
    def go(as_):
        k = tuple(a.uid for a in as_)
        if k in memo: return memo[k]
        v = _top(*as_)
        if v is None:
            r = f(*[a.leaf for a in as_])
            if not isinstance(r, Node): r = leaf(r)
        else:
            r = ite(bvar(v), go([cof(a, v, 1) for a in as_]), go([cof(a, v, 0) for a in as_]))
        memo[k] = r
        return r
    return go(list(args))
def leaves(n, seen=None, out=None):
    if seen is None: seen = set(); out = []
    if n.uid in seen: return out
    seen.add(n.uid)
    if n.v is None: out.append(n.leaf)
    else: leaves(n.hi, seen, out); leaves(n.lo, seen, out)
    return out

# ---------------------------------------------------------------- comparisons
def _intnorm(p):
    """p <= 0 over the integers -> (gcd-normalised poly)"""
    cs = [c for m, c in p.t if m != ()]
    den = 1
    for c in cs + [c for m, c in p.t if m == ()]:
        if isinstance(c, Fraction): den = den * c.denominator // gcd(den, c.denominator)
    if den != 1: p = pscale(p, den)
    g = reduce(gcd, [abs(int(c)) for m, c in p.t if m != ()], 0)
    if g > 1:
        d = {}
        for m, c in p.t:
            if m == (): d[m] = -((-int(c)) // g)      # ceil(c/g):  sum + c/g <= 0
            else: d[m] = int(c) // g
        p = mkpoly(d)
    return p
def lead_sign(p):
    for m, c in reversed(p.t):
        if m != (): return 1 if c > 0 else -1
    return 1
def le0(p):
    c = pconst(p)
    if c is not None: return T if c <= 0 else F
    p = _intnorm(p)
    if lead_sign(p) < 0:
        q = psub(ONE, p)             # not (p<=0)  <=> 1-p <= 0
        return bnot(bvar(batom(('le0', q), (q,))))
    return bvar(batom(('le0', p), (p,)))
def eq0(p):
    c = pconst(p)
    if c is not None: return T if c == 0 else F
    g = reduce(gcd, [abs(int(c)) for m, c in p.t if m != ()], 0) if all(not isinstance(c, Fraction) for m, c in p.t) else 0
    if g > 1:
        k = dict(p.t).get((), 0)
        if k % g: return F
        p = mkpoly({m: c // g for m, c in p.t})
    if lead_sign(p) < 0: p = pneg(p)
    return bvar(batom(('eq0', p), (p,)))
def _fnorm(p):
    lc = None
    for m, c in reversed(p.t):
        if m != (): lc = abs(c); break
    return pscale(p, Fraction(1) / lc)
def flt0(p):
    c = pconst(p)
    if c is not None: return T if c < 0 else F
    p = _fnorm(p)
    return bvar(batom(('flt0', p), (p,)))
def feq0(p):
    c = pconst(p)
    if c is not None: return T if c == 0 else F
    p = _fnorm(p)
    if lead_sign(p) < 0: p = pneg(p)
    if len(p.t) == 1:
        m, c = p.t[0]
        k = atom_key(m[0][0]) if len(m) == 1 and m[0][1] > 0 else ()
        if k[:2] == ('uf', 'fabs') and isinstance(k[2], Poly): return feq0(k[2])
    return bvar(batom(('feq0', p), (p,)))

# ---------------------------------------------------------------- linear facts
_decide = {}
_bat_vars = {}
def bat_vars(i):
    """numeric atoms (monomial factors) constrained by boolean atom i, closed over defining facts."""
    r = _bat_vars.get(i)
    if r is None:
        k = _batoms[i]; s = set()
        if k[0] in ('le0', 'eq0', 'flt0', 'feq0'):
            for m, _ in k[1].t:
                for a, e in m: s.add(a)
            work = list(s)
            while work:
                a = work.pop()
                for f in atom_facts(a):
                    for m, _ in f.t:
                        for b, e in m:
                            if b not in s: s.add(b); work.append(b)
        r = _bat_vars[i] = frozenset(s)
    return r
class Ctx:
    """A conjunction of literals (batom index, bool)."""
    cache = {}
    __slots__ = ('lits', '_set', '_d')
    def __init__(self, lits=()):
        self._set = frozenset(lits)
        self.lits = tuple(sorted(self._set)); self._d = {}
    def add(self, i, b):
        if (i, b) in self._set: return self
        k = (i, b)
        r = self._d.get(k)
        if r is None: r = self._d[k] = Ctx(self.lits + ((i, b),))
        return r
    def feasible(self):
        if any((i, not b) in self._set for i, b in self.lits): return False
        r = Ctx.cache.get(self.lits)
        if r is None:
            r = feasible(self.lits); Ctx.cache[self.lits] = r
        return r
    def component(self, i):
        vs = set(bat_vars(i)); out = []; rest = [(j, b) for j, b in self.lits if bat_vars(j)]
        ch = True
        while ch and rest:
            ch = False; nr = []
            for l in rest:
                w = bat_vars(l[0])
                if w & vs: out.append(l); vs |= w; ch = True
                else: nr.append(l)
            rest = nr
        return tuple(sorted(out))
    def decide(self, i):
        """True/False/None: truth of batom i under the (feasible) facts."""
        if (i, True) in self._set: return True
        if (i, False) in self._set: return False
        if not relevant(i): return None
        comp = self.component(i)
        k = (i, comp)
        r = _decide.get(k, 0)
        if r == 0:
            r = None
            if comp or any(atom_facts(a) for a in bat_vars(i)):
                if not feasible(comp + ((i, True),)): r = False
                elif not feasible(comp + ((i, False),)): r = True
            _decide[k] = r
        return r
def relevant(i):
    return _batoms[i][0] in ('le0', 'eq0', 'flt0', 'feq0')

def lp_empty(cons):
    """cons: list of (dict var->coef, const, strict): sum + const (<=|<) 0.
    True when a Farkas certificate of emptiness (over the rationals) exists.
    y>=0, A^T y = 0, c.y - s = 0, s + sum_strict y = 1  (s>=0)."""
    vs = sorted({v for d, k, s in cons for v in d})
    idx = {v: r for r, v in enumerate(vs)}
    m = len(vs) + 2; n = len(cons) + 1
    rows = [[0] * (n + 1) for _ in range(m)]
    for j, (d, k, s) in enumerate(cons):
        for v, c in d.items(): rows[idx[v]][j] = c
        rows[m - 2][j] = k
        if s: rows[m - 1][j] = 1
    rows[m - 2][n - 1] = -1
    rows[m - 1][n - 1] = 1; rows[m - 1][n] = 1
    # phase-1 simplex with exact rationals, artificial variable per row
    basis = [n + 1 + r for r in range(m)]       # artificial ids
    obj = [0] * (n + 1)
    for r in range(m):
        for j in range(n + 1): obj[j] += rows[r][j]
    it = 0
    while True:
        it += 1
        if it > 400: return False
        if obj[n] == 0: return True
        col = -1
        if it < 120:
            best = 0
            for j in range(n):
                if obj[j] > best: best = obj[j]; col = j
        else:
            for j in range(n):
                if obj[j] > 0: col = j; break
        if col < 0: return False
        pr = -1; br = None
        for r in range(m):
            x = rows[r][col]
            if x > 0:
                t = Fraction(rows[r][n]) / x
                if br is None or t < br or (t == br and basis[r] < basis[pr]): br = t; pr = r
        if pr < 0: return False
        piv = rows[pr][col]
        if piv != 1: rows[pr] = [norm_frac(Fraction(x) / piv) if x else 0 for x in rows[pr]]
        prow = rows[pr]
        nz = [j for j in range(n + 1) if prow[j]]
        for r in range(m):
            if r != pr:
                f = rows[r][col]
                if f:
                    rr = rows[r]
                    for j in nz: rr[j] = norm_frac(rr[j] - f * prow[j])
        f = obj[col]
        if f:
            for j in nz: obj[j] = norm_frac(obj[j] - f * prow[j])
        basis[pr] = col

class Empty(Exception): pass
def propagate(le, eq):
    """interval propagation on integer/real linear literals: atoms forced to a constant."""
    lo = {}; hi = {}
    cons = [(p, False) for p in le] + [(p, True) for p in eq]
    lin = []
    for p, e in cons:
        if all(len(m) <= 1 and all(x[1] == 1 for x in m) for m, _ in p.t):
            lin.append(({m[0][0]: c for m, c in p.t if m}, dict(p.t).get((), 0)))
            if e: lin.append(({m[0][0]: -c for m, c in p.t if m}, -dict(p.t).get((), 0)))
    for r in range(6):
        ch = False
        for d, k in lin:
            # sum c_i x_i + k <= 0
            for v, c in d.items():
                s = k; ok = True
                for w, cw in d.items():
                    if w == v: continue
                    b = lo.get(w) if cw > 0 else hi.get(w)
                    if b is None: ok = False; break
                    s += cw * b
                if not ok: continue
                bound = Fraction(-s) / c
                if c > 0:
                    if v not in hi or bound < hi[v]: hi[v] = bound; ch = True
                else:
                    if v not in lo or bound > lo[v]: lo[v] = bound; ch = True
                if v in lo and v in hi and lo[v] > hi[v]: raise Empty()
        if not ch: break
    return {v: norm_frac(lo[v]) for v in lo if v in hi and lo[v] == hi[v]}, lo

_norm_cache = {}
def normalise(lits):
    """literals -> (subst list, le, lt, eq, ne, fne) after substituting implied equalities; None if empty."""
    r = _norm_cache.get(lits, 0)
    if r != 0: return r
    r = _normalise(lits)
    if len(_norm_cache) > 200000: _norm_cache.clear()
    _norm_cache[lits] = r
    return r
def _normalise(lits):
    le = []; eq = []; lt = []; ne = []; fne = []
    for i, b in lits:
        k = _batoms[i]
        if k[0] == 'le0': le.append(k[1] if b else psub(ONE, k[1]))
        elif k[0] == 'eq0': (eq if b else ne).append(k[1])
        elif k[0] == 'flt0':
            if b: lt.append(k[1])
            else: le.append(pneg(k[1]))
        elif k[0] == 'feq0':
            if b: eq.append(k[1])
            else: fne.append(k[1])
    sub = []
    def ap(a, q):
        nonlocal sub, le, eq, lt, ne, fne
        f = lambda p: psubst1(p, a, q)
        sub = [(b, f(r)) for b, r in sub] + [(a, q)]
        le = [f(p) for p in le]; eq = [f(p) for p in eq]; lt = [f(p) for p in lt]; ne = [f(p) for p in ne]; fne = [f(p) for p in fne]
    lob = {}
    for rnd in range(40):
        # implied equalities:  p<=0 and -p<=0
        s = set(le); found = False
        for p in list(s):
            if p is not ZERO and pconst(p) is None and pneg(p) in s:
                eq.append(p); le = [x for x in le if x is not p and x is not pneg(p)]; found = True; break
        neq = []
        did = False
        for e in eq:
            c = pconst(e)
            if c is not None:
                if c != 0: return None
                continue
            neq.append(e)
        eq = neq
        for e in eq:
            pick = None
            for m, cf in e.t:
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    if sum(1 for m2, _ in e.t if any(x == a for x, _e in m2)) == 1 and (cf in (1, -1) or len(e.t) <= 2 and _batom_real(e)):
                        pick = (a, cf); break
            if pick:
                a, cf = pick
                q = psub(pvar(a), pscale(e, Fraction(1) / cf))
                if a in support(q): continue
                eq = [x for x in eq if x is not e]
                ap(a, q); did = True; break
        if did or found: continue
        for e in eq:                      # product of positive integers equal to one
            if len(e.t) == 2 and () in dict(e.t):
                (m, cf), = [(m, c) for m, c in e.t if m != ()]
                if cf + dict(e.t)[()] == 0 and len(m) > 1:
                    sle = set(le)
                    if all(psub(ONE, pvar(a)) in sle for a, _ in m):
                        for a, _ in m: ap(a, ONE)
                        did = True; break
        if did: continue
        try: forced, lob = propagate(le, eq)
        except Empty: return None
        if forced:
            for a, c in forced.items(): ap(a, const(c))
            continue
        break
    out = []
    for p in le:
        c = pconst(p)
        if c is not None:
            if c > 0: return None
            continue
        out.append(p)
    le = out
    for p in lt:
        c = pconst(p)
        if c is not None and c >= 0: return None
    lt = [p for p in lt if pconst(p) is None]
    for p in ne + fne:
        if p is ZERO: return None
    return sub, le, lt, eq, ne, fne, lob
def _batom_real(e): return True
def apply_sub(p, sub):
    for a, q in sub: p = psubst1(p, a, q)
    return p
def TMlead(p): return lead_sign(p)
def feasible(lits, split=2):
    if any((i, not b) in lits for i, b in lits): return False
    nz = normalise(tuple(sorted(set(lits))))
    if nz is None: return False
    sub, le, lt, eq, ne, fne, lob = nz
    if not (le or lt or eq): return True
    base = [(p, False) for p in le] + [(p, True) for p in lt]
    for e in eq: base += [(e, False), (pneg(e), False)]
    for a, q in sub:             # what is known of an atom holds of the value put in its place
        if _atoms[a][0] in ('fdivpos', 'sdiv'):
            for f in atom_facts(a):
                f = apply_sub(f, sub); c = pconst(f)
                if c is None: base.append((f, False))
                elif c > 0: return False
    facts, nl, lob = product_facts([p for p, s in base], sub, lob, ne)
    full = base + facts
    if run_lp(full): return False
    # integer quotients by a constant: below one means zero
    for a in sorted({b for p, _ in full for m, _ in p.t for b, _ in m}):
        k = _atoms[a]
        if k[0] == 'fdivpos' and pconst(k[2]) is not None:
            x = pvar(a)
            if run_lp(full + [(psub(ONE, x), False)]): full = full + [(x, False)]
            elif run_lp(full + [(x, False)]): full = full + [(psub(ONE, x), False)]
            else: continue
            if run_lp(full): return False
    work = [p for p in ne if pconst(p) is None]; changed = True
    while changed and work:
        changed = False
        for p in list(work):
            below = run_lp(full + [(padd(p, ONE), False)])
            above = run_lp(full + [(psub(ONE, p), False)])
            if below and above: return False
            if below or above:            # a bound moves past the excluded value
                full = full + [(psub(ONE, p) if below else padd(p, ONE), False)]
                work.remove(p); changed = True
    for p in fne:
        if pconst(p) is not None: continue
        if run_lp(full + [(p, True)]) and run_lp(full + [(pneg(p), True)]): return False
    if nl and split > 0 and (len(ne) <= 4):
        # case split on a factor that may be zero
        cand = []
        for m in nl:
            for a, e in m:
                if lob.get(a) == 0 and a not in cand: cand.append(a)
        for a in cand[:5]:
            x = pvar(a)
            z = _lits_of(bnot(bnot(eq0(x)))); g1 = _lits_of(le0(psub(ONE, x)))
            if not feasible(tuple(lits) + z, split - 1) and not feasible(tuple(lits) + g1, split - 1): return False
    # sign split on the cofactor of a shared non-negative factor:  x*q + ... <= 0
    if nl and split > 0:
        seen = []
        for p in le:
            fs = {}
            for m, c in p.t:
                if sum(e for _, e in m) > 1:
                    pos = [a for a, e in m if lob.get(a, -1) >= 0]
                    for a in pos: fs.setdefault(((a, 1),), {})[mmul(m, ((a, -1),))] = c
                    for x in range(len(pos)):
                        for y in range(x):
                            f = mmul(((pos[x], 1),), ((pos[y], 1),)); fs.setdefault(f, {})[mmul(m, tuple((a, -e) for a, e in f))] = c
            for a, d in fs.items():
                if len(d) < 2: continue
                q = mkpoly(d)
                if TMlead(q) < 0: q = pneg(q)
                if q in seen or not all(len(m) <= 1 for m, _ in q.t): continue
                seen.append(q)
        for q in seen[:2]:
            if all(not feasible(tuple(lits) + _lits_of(c), split - 1) for c in (le0(padd(q, ONE)), eq0(q), le0(psub(ONE, q)))): return False
    # disequalities over non-linear terms: split them
    if nl and split > 0:
        for p in ne[:3]:
            if pconst(p) is not None: continue
            if any(len(m) > 1 for m, _ in p.t):
                hi = _lits_of(le0(psub(ONE, p))); lo = _lits_of(le0(padd(p, ONE)))
                rest = tuple(lits)
                if not feasible(rest + hi, split - 1) and not feasible(rest + lo, split - 1): return False
    return True
def _lits_of(n):
    if n is T or n is F: return ()
    return ((n.v, n.hi is T),)
_lpc = {}
def run_lp(base):
    key = frozenset(base)
    r = _lpc.get(key)
    if r is None:
        cons = []
        for p, s in base:
            d = {}; k = 0
            for m, c in p.t:
                if m == (): k = c
                else: d[m] = c
            cons.append((d, k, s))
        r = lp_empty(cons)
        _lpc[key] = r
    return r
_af = {}
def atom_facts(a):
    r = _af.get(a)
    if r is None: r = _af[a] = _atom_facts(a)
    return r
def _plainly_nonneg(p):
    return isinstance(p, Poly) and all(c >= 0 and all(e % 2 == 0 or any(f is pneg(pvar(a)) for f in atom_facts(a)) for a, e in m) for m, c in p.t)
def _atom_facts(a):
    """p<=0 facts that hold of an interned atom by construction."""
    k = _atoms[a]; out = []
    x = pvar(a)
    if k[0] == 'nonneg' or (k[0] == 'arg' and k[-1] == 'nonneg'): out.append(pneg(x))
    if k[0] == 'idx' or k[0] == 'call' and k[1].endswith('_nn'): out.append(pneg(x))
    if k[0] == 'rec' and k[5] != 'ptr' and k[5] != 'i1' and all(_plainly_nonneg(l) for z in k[3][k[4]] for l in leaves(z)): out.append(pneg(x))
    if k[0] == 'sdiv':
        p, q = k[1], k[2]
        c = pconst(q)
        if c is not None and c > 0:
            # truncated division: |p - c*x| <= c-1
            r = psub(p, pscale(x, c))
            out.append(psub(r, const(c - 1))); out.append(psub(pneg(r), const(c - 1)))
    if k[0] == 'fdivpos':        # floor division, numerator >= 0, divisor >= 1
        p, q = k[1], k[2]
        r = psub(p, pmul(q, x))
        out.append(pneg(r)); out.append(padd(psub(r, q), ONE)); out.append(pneg(x)); out.append(psub(x, p))
    return out
def product_facts(ps, sub=(), lob=None, mention=()):
    """facts about interned atoms and non-linear monomials that occur in ps.
    returns (facts, nonlinear monomials, lower bounds)"""
    out = []
    lob = dict(lob or {})
    monos = set(); ats = set()
    for p in list(ps) + list(mention):
        for m, _ in p.t:
            monos.add(m)
            for a, e in m: ats.add(a)
    work = sorted(ats); seen = set(ats)
    lin = [p for p in ps]
    while work:
        a = work.pop()
        for f in atom_facts(a):
            f = apply_sub(f, sub)
            if pconst(f) is not None: continue
            out.append((f, False)); lin.append(f)
            if len(f.t) == 1 and len(f.t[0][0]) == 1 and f.t[0][1] < 0 and f.t[0][0][0][1] == 1: lob[f.t[0][0][0][0]] = max(lob.get(f.t[0][0][0][0], 0), 0)
            for m, _ in f.t:
                monos.add(m)
                for b, e in m:
                    if b not in seen: seen.add(b); work.append(b)
    nl = sorted(m for m in monos if len(m) and sum(abs(e) for _, e in m) > 1 and all(e > 0 for _, e in m))
    if not nl or len(nl) > 40: return out, nl, lob
    lin = [p for p in dict.fromkeys(lin) if all(sum(abs(e) for _, e in m) <= 1 for m, _ in p.t)]
    for p in lin:
        if len(p.t) == 1 and len(p.t[0][0]) == 1 and p.t[0][1] < 0: lob.setdefault(p.t[0][0][0][0], 0)
    S = set(nl)
    # close under division by one factor
    work = list(nl)
    while work and len(S) < 60:
        m = work.pop()
        for a, e in m:
            q = mmul(m, ((a, -1),))
            if sum(x for _, x in q) > 1 and q not in S: S.add(q); work.append(q)
    def nonneg(m): return all(lob.get(a, -1) >= 0 or e % 2 == 0 for a, e in m)
    add = set()
    for m in sorted(S):
        if nonneg(m):
            pm = mkpoly({m: 1})
            add.add(pneg(pm))
            for a, e in m:
                if lob.get(a, -1) >= 1:
                    q = mmul(m, ((a, -1),))
                    add.add(psub(mkpoly({q: lob[a] if lob[a] == int(lob[a]) else 1}), pm))
    divs = set()
    for m in S:
        for a, e in m:
            divs.add(((a, 1),)); 
            q = mmul(m, ((a, -1),))
            if q: divs.add(q)
    divs = sorted(d for d in divs if nonneg(d))
    short = [p for p in lin if len(p.t) <= 4 and not (len(p.t) == 1)][:40]
    n = 0
    for p in short:
        for d in divs:
            q = pmul(p, mkpoly({d: 1}))
            ok = True
            for m, _ in q.t:
                if sum(e for _, e in m) > 1 and m not in S: ok = False; break
            if ok: add.add(q); n += 1
            if n > 120: break
        if n > 120: break
    # pairwise products of linear constraints
    lin2 = short[:24]
    got = 0
    for i in range(len(lin2)):
        for j in range(i, len(lin2)):
            q = pneg(pmul(lin2[i], lin2[j]))
            new = [m for m, _ in q.t if sum(e for _, e in m) > 1]
            if new and all(m in S for m in new): add.add(q); got += 1
            if got > 60: break
        if got > 60: break
    out += [(q, False) for q in sorted(add, key=lambda p: p.t)]
    return out, nl, lob
def psubst1(p, a, q):
    """replace atom a (top level of monomials only) by q."""
    if not any(x == a for m, _ in p.t for x, _e in m): return p
    out = {}
    acc = ZERO
    for m, c in p.t:
        e = 0; rest = []
        for x, k in m:
            if x == a: e = k
            else: rest.append((x, k))
        if e < 0: 
            t = mkpoly({m: c})
        else:
            t = mkpoly({tuple(rest): c})
            for _ in range(e): t = pmul(t, q)
        acc = padd(acc, t)
    return acc

def facts_of(g, limit=40):
    """literals implied by diagram g (a boolean): forced decisions."""
    lits = []
    cur = g
    # cheap: walk while one branch is false
    while cur.v is not None:
        if cur.hi is F: lits.append((cur.v, False)); cur = cur.lo
        elif cur.lo is F: lits.append((cur.v, True)); cur = cur.hi
        else:
            # literals common to both branches below
            common = set(facts_of(cur.hi, limit)) & set(facts_of(cur.lo, limit)) if limit > 0 else set()
            # also literals forced for variables deeper
            lits += list(common)
            break
        limit -= 1
    return lits

def prune(n, ctx, budget=None):
    """remove infeasible branches of n under ctx."""
    memo = {}
    def go(n, ctx):
        if n.v is None: return n
        k = (n.uid, ctx.lits)
        if k in memo: return memo[k]
        if budget is not None:
            budget[0] -= 1
            if budget[0] < 0: return n
        d = ctx.decide(n.v)
        if d is True: r = go(n.hi, ctx)
        elif d is False: r = go(n.lo, ctx)
        else: r = ite(bvar(n.v), go(n.hi, ctx.add(n.v, True)), go(n.lo, ctx.add(n.v, False)))
        memo[k] = r
        return r
    return go(n, ctx)

def settle(n, ctx, budget):
    """drop tests whose outcome makes no difference under ctx: a branch that agrees with its sibling where it is taken is replaced by it."""
    memo = {}
    def co(x, v, o): return x if x.v != v else x.hi if o else x.lo
    def same(a, b, ctx):
        if a is b: return True
        budget[0] -= 1
        if budget[0] < 0: return False
        if a.v is None and b.v is None: return False
        v = min(x.v for x in (a, b) if x.v is not None)
        d = ctx.decide(v)
        return all(same(co(a, v, o), co(b, v, o), ctx.add(v, o)) for o in (True, False) if d is None or d is o)
    def go(n, ctx):
        if n.v is None: return n
        k = (n.uid, ctx.lits)
        if k in memo: return memo[k]
        budget[0] -= 1
        if budget[0] < 0: return n
        d = ctx.decide(n.v)
        if d is not None: r = go(n.hi if d else n.lo, ctx)
        else:
            ct, cf = ctx.add(n.v, True), ctx.add(n.v, False)
            hi, lo = go(n.hi, ct), go(n.lo, cf)
            if same(hi, lo, ct): r = lo
            elif same(hi, lo, cf): r = hi
            else: r = ite(bvar(n.v), hi, lo)
        memo[k] = r
        return r
    return go(n, ctx)

# ---------------------------------------------------------------- substitution
def subst(x, mp, memo=None):
    """replace atoms (by index) with Polys everywhere, including inside atoms."""
    if memo is None: memo = {}
    keys = frozenset(mp)
    def sp(p):
        if not (support(p) & keys): return leaf(p)
        k = ('p', p)
        if k in memo: return memo[k]
        acc = leaf(ZERO)
        for m, c in p.t:
            t = leaf(const(c))
            for a, e in m:
                if a in mp: v = mp[a]; v = v if isinstance(v, Node) else leaf(v)
                elif _akids[a] & keys: v = sa(a)
                else: v = leaf(pvar(a))
                if e < 0:
                    v = ap1('inv', lambda q: pinv(q) if isinstance(q, Poly) else q, v)
                for _ in range(abs(e)): t = ap2('mul', _mulf, t, v)
            acc = ap2('add', _addf, acc, t)
        memo[k] = acc
        return acc
    def sa(a):
        k = ('a', a)
        if k in memo: return memo[k]
        if a in mp:
            r = mp[a] if isinstance(mp[a], Node) else leaf(mp[a])
            memo[k] = r
            return r
        key = _atoms[a]
        r = rebuild_atom(key, sv)
        if not isinstance(r, Node): r = leaf(r)
        memo[k] = r
        return r
    def sbase(b):
        if b[0] == 'sym' and _akids[b[1]] & keys:
            r = sa(b[1])
            return r
        return None
    def sv(x):
        if isinstance(x, Poly): return sp(x)
        if isinstance(x, Ptr):
            if not (support(x) & keys): return leaf(x)
            o = sp(x.off)
            nb = sbase(x.base)
            if nb is None:
                return ap1(('ptrb', x.base), lambda p: mkptr(x.base, p) if isinstance(p, Poly) else p, o)
            def comb(b, p):
                if isinstance(b, Ptr): return mkptr(b.base, padd(b.off, p))
                if not isinstance(b, Poly): return b
                a = poly_as_atom(b)
                if _atoms[a][0] == 'ptrval': return mkptr(_atoms[a][1].base, padd(_atoms[a][1].off, p))
                return mkptr(('sym', a), p)
            return ap2('ptrcomb', comb, nb, o)
        if isinstance(x, Node):
            if not (support(x) & keys): return x
            k = ('n', x.uid)
            if k in memo: return memo[k]
            if x.v is None: r = sv(x.leaf)
            else:
                c = bvar(x.v)
                if _bsup[x.v] & keys: c = sb(x.v)
                r = ite(c, sv(x.hi), sv(x.lo))
            memo[k] = r
            return r
        if isinstance(x, tuple):
            return tuple(sv(y) if isinstance(y, (Poly, Ptr, Node, tuple)) else y for y in x)
        return leaf(x) if not isinstance(x, (str, int, type(None), Fn, _Undef)) or isinstance(x, bool) else leaf(x)
    def sb(i):
        k = ('b', i)
        if k in memo: return memo[k]
        key = _batoms[i]
        if key[0] in ('le0', 'eq0', 'flt0', 'feq0'):
            f = {'le0': le0, 'eq0': eq0, 'flt0': flt0, 'feq0': feq0}[key[0]]
            r = ap1(key[0], lambda p: f(p) if isinstance(p, Poly) else UNDEF, sp(key[1]))
        else:
            r = rebuild_batom(key, sv)
        memo[k] = r
        return r
    return sv(x)
def poly_as_atom(p):
    if isinstance(p, Poly) and len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][1] == 1:
        return p.t[0][0][0][0]
    return atom(('asptr', p), (p,))
def _mulf(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    return pmul(a, b)
def _addf(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    return padd(a, b)
REBUILD = {}
def rebuild_atom(key, sv):
    h = REBUILD.get(key[0])
    if h: return h(key, sv)
    return generic_rebuild(key, sv, lambda k, kids: pvar(atom(k, kids)))
def rebuild_batom(key, sv):
    h = REBUILD.get(key[0])
    if h: return h(key, sv)
    return generic_rebuild(key, sv, lambda k, kids: bvar(batom(k, kids)))
def generic_rebuild(key, sv, mk):
    """rebuild a key whose components may be Poly/Ptr (leaf terms), Node, or nested tuples."""
    slots = []
    def collect(x):
        if isinstance(x, (Poly, Ptr)):
            slots.append(sv(x)); return ('#', len(slots) - 1, 'L')
        if isinstance(x, Node):
            slots.append(sv(x)); return ('#', len(slots) - 1, 'N')
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'sym' and isinstance(x[1], int):
                slots.append(sv(mkptr(x, ZERO))); return ('#', len(slots) - 1, 'B')
            return tuple(collect(y) for y in x)
        return x
    tmpl = collect(key)
    lidx = []
    def find(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == '#':
                if x[2] in 'LB': lidx.append(x[1])
                return
            for y in x: find(y)
    find(tmpl)
    def build(*ls):
        m = dict(zip(lidx, ls))
        kids = []
        def fill(x):
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == '#':
                    v = m[x[1]] if x[2] in 'LB' else slots[x[1]]
                    kids.append(v)
                    if x[2] == 'B':
                        if not (isinstance(v, Ptr) and v.off is ZERO): return ('ptrbase', v)
                        return v.base
                    return v
                return tuple(fill(y) for y in x)
            return x
        return mk(fill(tmpl), kids)
    return apn(build, [slots[i] for i in lidx])

# ---------------------------------------------------------------- printing
_dep = [0]
def _deep(f):
    def g(*a, **k):
        if _dep[0] > 11: return '~'
        _dep[0] += 1
        try:
            r = f(*a, **k)
            return r if len(r) < 1200 else r[:1200] + '~'
        finally: _dep[0] -= 1
    return g
def show_atom(a):
    return show_key(_atoms[a])
@_deep
def show_key(k):
    if not isinstance(k, tuple): return show(k)
    if not k: return '()'
    if k[0] == 'arg': return str(k[1])
    if k[0] == 'idx': return f'#{k[1]}'
    if k[0] == 'bv': return f'${k[1]}' + (f'.{k[2]}' if k[2] != 'n' else '')
    if k[0] == 'ld':
        v = k[1]
        if v[0] == 'mem': return f'{show_base(v[1])}[{show(k[2])}]'
        return f'{show_key(v)}[{show(k[2])}]'
    if k[0] == 'mem': return f'*{show_base(k[1])}'
    if k[0] == 'call': return f'{short(k[1])}({", ".join(show_key(x) if isinstance(x, tuple) else show(x) for x in k[2:])})'
    if k[0] == 'sym' and len(k) == 2 and isinstance(k[1], int): return show_atom(k[1])
    return f'{k[0]}({", ".join(show_key(x) for x in k[1:])})'
def short(n):
    import re
    n = re.sub(r'<[^<>]*>', '<>', n)
    for _ in range(6): n = re.sub(r'<[^<>]*<>[^<>]*>', '<>', n)
    return n if len(n) < 90 else n[:90] + '..'
def show_base(b):
    if b[0] == 'sym' and len(b) == 2: return show_atom(b[1])
    return ':'.join(str(x) if not isinstance(x, (Poly, Node)) else show(x) for x in b)
@_deep
def show_poly(p):
    if not p.t: return '0'
    s = []
    for m, c in p.t:
        ms = '*'.join(show_atom(a) + (f'^{e}' if e != 1 else '') for a, e in m)
        if ms == '': s.append(str(c))
        elif c == 1: s.append(ms)
        elif c == -1: s.append('-' + ms)
        else: s.append(f'{c}*{ms}')
        if len(s) > 24: s.append('~'); break
    return ' + '.join(s).replace('+ -', '- ')
def show_lit(i, b):
    k = _batoms[i]
    if k[0] in ('le0', 'eq0', 'flt0', 'feq0'):
        op = {'le0': ('<= 0', '> 0'), 'eq0': ('== 0', '!= 0'), 'flt0': ('< 0', '>= 0'), 'feq0': ('== 0', '!= 0')}[k[0]][0 if b else 1]
        return f'({show_poly(k[1])} {op})'
    return ('' if b else '!') + show_key(k)
@_deep
def show(x):
    if isinstance(x, Poly): return show_poly(x)
    if isinstance(x, Node):
        if x.v is None: return show(x.leaf)
        return f'[{show_lit(x.v, True)} ? {show(x.hi)} : {show(x.lo)}]'
    if isinstance(x, tuple): return show_key(x)
    if isinstance(x, Ptr): return f'&{show_base(x.base)}+{show_poly(x.off)}'
    return str(x)
