"""Abstract interpreter for LLVM IR (trace partitioning + inferred inductive
loop invariants).  See DESIGN.md.  Nothing is executed: the interpreter computes
an over-approximation of all concrete executions from an abstract entry state."""
import re, heapq, random
from .dom import *
from . import dom

# ---------------------------------------------------------------- expressions E
def ec(c): return ((), c)
def ea(a, k=1): return (((a, k),), 0)
def eadd(x, y):
    if not x[0]: return (y[0], x[1] + y[1])
    if not y[0]: return (x[0], x[1] + y[1])
    d = dict(x[0])
    for a, k in y[0]:
        k += d.get(a, 0)
        if k: d[a] = k
        else: d.pop(a, None)
    return (tuple(sorted(d.items())), x[1] + y[1])
def emul(x, k):
    if k == 0: return ((), 0)
    return (tuple((a, c * k) for a, c in x[0]), x[1] * k)
def esub(x, y): return eadd(x, emul(y, -1))
def eaddc(x, c): return (x[0], x[1] + c)
def edivs(x, k):
    """x is divisible by k coefficient-wise -> x/k else None"""
    if x[1] % k or any(c % k for _, c in x[0]): return None
    return (tuple((a, c // k) for a, c in x[0]), x[1] // k)
def e2iv(w, e): return mklin(w, e[1], dict(e[0]))
def con(e): return mkcon(dict(e[0]), e[1])
def eshow(e):
    s = " + ".join("%s%s" % ("" if k == 1 else "%d*" % k, ATOMS[a].name) for a, k in e[0])
    return (s + (" + %d" % e[1] if e[1] else "")) if s else str(e[1])

IDX = mkatom(("IDX",), "IDX", 64, 0, BIG)
def elem_atom(arr, e, w, hi=None):
    return mkatom(("elem", arr, e, w), "%s[%s]" % (arr, eshow(e)), w, 1 if arr.startswith("s:") else 0, hi, "elem", (arr, e))

FOLDDEF = {}    # recurrences: name -> (step, initial value, accumulator atom, index atom)
FOLDSHIFT = {}  # name -> (other name, k): the n-th element of this one is the (n+k)-th of the other
# ---------------------------------------------------------------- values
class Ptr:
    __slots__ = ("o", "e")
    def __init__(self, o, e=((), 0)): self.o = o; self.e = e
    def __eq__(self, x): return isinstance(x, Ptr) and self.o == x.o and self.e == x.e
    def __hash__(self): return hash((self.o, self.e))
    def __repr__(self): return "&%s+%s" % (self.o, eshow(self.e))
NULL = Ptr(None)
class Flt:
    __slots__ = ("t", "w")
    def __init__(self, t, w): self.t = t; self.w = w
    def __eq__(self, x): return isinstance(x, Flt) and self.t == x.t and self.w == x.w
    def __hash__(self): return hash((self.t, self.w))
    def __repr__(self): return "F%r" % (self.t,)
class Undef:
    def __repr__(self): return "undef"
    def __eq__(self, x): return isinstance(x, Undef)
    def __hash__(self): return 7
UNDEF = Undef()

# substitution of atoms in values
def subst_e(e, m):
    if not any(a in m or ATOMS[a].kind != "sym" for a, _ in e[0]): return e
    r = ec(e[1])
    for a, k in e[0]:
        if a in m: r = eadd(r, emul(m[a], k))
        else:
            v = subst_atom(a, m)
            if v is None: r = eadd(r, ((((a, k),), 0)))
            else:
                l = v.lin()
                # atoms substituted by exact same-range atoms only
                r = eadd(r, emul((l[1], l[0]), k))
    return r
_sa = {}
def subst_atom(a, m):
    """returns IV or None if unchanged"""
    key = (a, tuple(sorted(m.items())))
    if key in _sa: return _sa[key]
    A = ATOMS[a]; r = None
    if a in m: r = e2iv(A.w, m[a])
    elif A.kind == "elem":
        arr, e = A.d; e2 = subst_e(e, m)
        if e2 != e: r = ofatom(elem_atom(arr, e2, A.w, A.hi))
    elif A.kind == "bits":
        bs = tuple(subst_p(p, m) for p in A.d)
        if bs != A.d: r = ofbits(bs)
    elif A.kind == "linw":
        w, l = A.d; v = subst_iv(IV(w, l), m)
        if v.lin() != l: r = v
    elif A.kind == "fn":
        nm, args = A.d
        na = tuple(subst_val(x, m) for x in args)
        if na != args: r = ofatom(mkatom(("fn", nm, na, A.w), "%s(...)%d" % (nm, len(ATOMS)), A.w, A.lo, A.hi, "fn", (nm, na), A.opaque))
    _sa[key] = r
    return r
def subst_p(p, m):
    def f(v):
        d = VARS[v]
        if d[0] == "bit":
            q = subst_atom(d[1], m)
            return q.bits()[d[2]] if q is not None else None
        if d[0] in ("ge", "eq"):
            e2 = subst_e(d[1], m)
            if e2 != d[1]: return ge_poly(e2) if d[0] == "ge" else eq_poly(e2)
        if d[0] == "and":
            return pand(subst_p(frozenset(d[1]), m), subst_p(frozenset(d[2]), m))
        if d[0] == "eqv":
            a = subst_iv(IV(d[1], d[2]), m); b = subst_iv(IV(d[1], d[3]), m)
            return eqv_poly(a, b)
        return None
    return psubst(p, f)
def subst_iv(v, m):
    if v._l is not None:
        c, ts = v._l
        r = cst(v.w, c); ch = False
        d = {}
        for a, k in ts:
            q = subst_atom(a, m)
            if q is None: d[a] = d.get(a, 0) + k
            else:
                ch = True
                c2, t2 = q.lin(); c += k * c2
                for b, kk in t2: d[b] = d.get(b, 0) + k * kk
        if not ch: return v
        return mklin(v.w, c, d)
    bs = tuple(subst_p(p, m) for p in v._b)
    return v if bs == v._b else ofbits(bs)
def subst_val(v, m):
    if isinstance(v, IV): return subst_iv(v, m)
    if isinstance(v, Ptr): return Ptr(v.o, subst_e(v.e, m))
    if isinstance(v, tuple): return tuple(subst_val(x, m) for x in v)
    return v
def val_atoms(v, acc):
    if isinstance(v, IV):
        if v._l is not None:
            for a, _ in v._l[1]: acc.add(a)
        else:
            for p in v._b:
                for x in pvars(p):
                    if VARS[x][0] == "bit": acc.add(VARS[x][1])
    elif isinstance(v, tuple):
        for x in v: val_atoms(x, acc)
def relativize(v, j, neg=False):
    """rewrite elem(A, j+c) as elem(A, IDX+c), or elem(A, c-j) as elem(A, c-IDX)"""
    acc = set(); val_atoms(v, acc)
    m = {}
    done = set()
    def visit(a):
        if a in done: return
        done.add(a); A = ATOMS[a]
        if A.kind == "elem":
            d = esub(eadd(A.d[1], j), ea(IDX.id)) if neg else eadd(ea(IDX.id), esub(A.d[1], j))
            m[a] = elem_atom(A.d[0], d, A.w, A.hi)
        elif A.kind == "bits":
            for p in A.d:
                for x in pvars(p):
                    if VARS[x][0] == "bit": visit(VARS[x][1])
        elif A.kind == "linw":
            for b, _ in A.d[1][1]: visit(b)
        elif A.kind == "fn":
            s = set(); val_atoms(A.d[1], s)
            for b in s: visit(b)
    for a in list(acc): visit(a)
    if not m: return v
    return subst_val(v, {a: ea(b.id) for a, b in m.items()})
def content_at(c, j):
    """instantiate a segment content at index j"""
    if c is None: return None
    return (c[0],) + tuple(subst_val(x, {IDX.id: j}) for x in c[1:])
def content_rel(c, j, neg=False):
    if c is None: return None
    return (c[0],) + tuple(relativize(x, j, neg) for x in c[1:])

# boolean polys for comparisons
def ge_poly(e):
    c = con(e)
    if not c[0]: return ONE if c[1] >= 0 else ZERO
    lo, hi = con_interval(c)
    if lo >= 0: return ONE
    if hi < 0: return ZERO
    if c[0][0][1] > 0: return pvar(("ge", c))
    return pnot(pvar(("ge", con_neg(c))))
def eq_poly(e):
    if not e[0]: return ONE if e[1] == 0 else ZERO
    g = 0
    for _, k in e[0]: g = gcd(g, k)
    if e[1] % g: return ZERO
    if e[0][0][1] < 0: g = -g
    t = (tuple((a, k // g) for a, k in e[0]), e[1] // g)
    lo, hi = con_interval(t)
    if lo > 0 or hi < 0: return ZERO
    return pvar(("eq", t))
def eqv_poly(a, b):
    if a.lin() == b.lin(): return ONE
    d = ivsub(a, b)
    c = d.const()
    if c is not None: return ONE if c == 0 else ZERO
    ab, bb = a.bits(), b.bits()
    diff = [x ^ y for x, y in zip(ab, bb)]
    if any(x == ONE for x in diff): return ZERO
    nz = [x for x in diff if x]
    if not nz: return ONE
    if len(nz) <= 4 and sum(len(x) for x in nz) < 60:
        r = ONE
        for x in nz: r = pand(r, pnot(x))
        return r
    nz = sorted(set(nz), key=lambda x: (len(x), tuple(sorted(x))))     # canonical: none of the differences
    return pvar(("eqv", len(nz), ofbits(nz).lin(), (0, ())))

def ivadd(a, b):
    c1, t1 = a.lin(); c2, t2 = b.lin(); d = dict(t1)
    for k, v in t2: d[k] = d.get(k, 0) + v
    return mklin(a.w, c1 + c2, d)
def ivneg(a):
    c, t = a.lin(); return mklin(a.w, -c, {k: -v for k, v in t})
def ivsub(a, b): return ivadd(a, ivneg(b))
def ivmulc(a, k):
    c, t = a.lin(); return mklin(a.w, c * k, {x: v * k for x, v in t})
def trunc(a, w):
    if a._l is not None and not (a._b is not None):
        c, t = a._l; return mklin(w, c, dict(t))
    r = IV(w, None, a._b[:w])
    if a._l is not None:
        c, t = a._l; r = mklin(w, c, dict(t)); r._b = a._b[:w]
    return r
def b1(p): return IV(1, None, (p,))

# ---------------------------------------------------------------- memory
class Region:
    __slots__ = ("base", "esz", "count", "segs")
    def __init__(s, base, esz, count, segs): s.base = base; s.esz = esz; s.count = count; s.segs = segs
    def copy(s): return Region(s.base, s.esz, s.count, list(s.segs))
class Obj:
    __slots__ = ("id", "kind", "size", "name", "live", "cells", "regs", "ty", "default", "ro", "meta")
    def copy(s):
        o = Obj(); o.id = s.id; o.kind = s.kind; o.size = s.size; o.name = s.name; o.live = s.live; o.cells = dict(s.cells)
        o.regs = [r.copy() for r in s.regs]; o.ty = s.ty; o.default = s.default; o.ro = s.ro; o.meta = s.meta
        return o
    def key(s):
        return (s.live, tuple(sorted(s.cells.items(), key=lambda t: t[0])), tuple((r.base, r.esz, r.count, tuple(r.segs)) for r in s.regs), s.meta)

class Frame:
    __slots__ = ("fn", "blk", "prev", "pc", "env", "call", "allocas", "stamp")
    def clone(s):
        f = Frame(); f.fn = s.fn; f.blk = s.blk; f.prev = s.prev; f.pc = s.pc; f.env = dict(s.env); f.call = s.call; f.allocas = s.allocas; f.stamp = s.stamp
        return f

class State:
    __slots__ = ("fr", "mem", "facts", "bmap", "C", "exc", "caught", "events", "taint", "qf", "neq", "own", "trace", "gh")
    def __init__(s):
        s.fr = []; s.mem = {}; s.facts = (); s.bmap = {}; s.C = ONE; s.exc = None; s.caught = (); s.events = (); s.taint = (); s.qf = ()
        s.neq = (); s.own = set(); s.trace = (); s.gh = {}
    def clone(s):
        n = State(); n.fr = [f.clone() for f in s.fr]; n.mem = dict(s.mem); n.facts = s.facts; n.bmap = s.bmap; n.C = s.C
        n.exc = s.exc; n.caught = s.caught; n.events = s.events; n.taint = s.taint; n.qf = s.qf; n.neq = s.neq; n.own = set(); s.own = set()
        n.trace = s.trace; n.gh = dict(s.gh)
        return n
    def wobj(s, oid):
        o = s.mem[oid]
        if oid not in s.own:
            o = o.copy(); s.mem[oid] = o; s.own.add(oid)
        return o
    # ---- linear facts
    def entails(s, e):
        c = con(e)
        if not c[0]: return c[1] >= 0
        lo, hi = con_interval(c)
        if lo >= 0: return True
        return lp_infeasible(s.facts, con_neg(c))
    def decide_ge(s, e):
        if s.entails(e): return True
        if s.entails(eaddc(emul(e, -1), -1)): return False
        return None
    def decide_eq(s, e):
        if not e[0]: return e[1] == 0
        g = 0
        for _, k in e[0]: g = gcd(g, k)
        if e[1] % g: return False
        a = s.entails(e); b = s.entails(emul(e, -1))
        if a and b: return True
        if s.entails(eaddc(e, -1)) or s.entails(eaddc(emul(e, -1), -1)): return False
        if s.neq:
            c = con(e); n = con(emul(e, -1))
            if c in s.neq or n in s.neq: return False
        return None
    def add_ge(s, e):
        c = con(e)
        if not c[0]: return c[1] >= 0
        if c in s.facts: return True
        if lp_infeasible(s.facts, c): return False
        if s.entails(e): return True
        s.facts = tuple(f for f in s.facts if not (f[0] == c[0] and f[1] >= c[1])) + (c,)
        if s.neq: return s._tighten()
        return True
    def _tighten(s):
        for c in s.neq:
            e = (c[0], c[1])
            if s.entails(e):
                s.neq = tuple(x for x in s.neq if x != c)
                return s.add_ge(eaddc(e, -1))
            if s.entails(emul(e, -1)):
                s.neq = tuple(x for x in s.neq if x != c)
                return s.add_ge(eaddc(emul(e, -1), -1))
        return True
    def add_eq(s, e):
        return s.add_ge(e) and s.add_ge(emul(e, -1))
    def add_ne(s, e):
        d = s.decide_eq(e)
        if d is True: return False
        if d is False: return True
        if s.entails(e): return s.add_ge(eaddc(e, -1))
        if s.entails(emul(e, -1)): return s.add_ge(eaddc(emul(e, -1), -1))
        s.neq = s.neq + (con(e),)
        return True
    # ---- boolean
    def red(s, p):
        if p == ONE or p == ZERO: return p
        def f(v):
            x = s.bmap.get(v)
            if x is not None: return ONE if x else ZERO
            d = VARS[v]
            if d[0] == "ge":
                r = s.decide_ge(d[1])
                return None if r is None else (ONE if r else ZERO)
            if d[0] == "eq":
                r = s.decide_eq(d[1])
                return None if r is None else (ONE if r else ZERO)
            if d[0] == "and":
                a = s.red(frozenset(d[1])); b = s.red(frozenset(d[2]))
                if a != frozenset(d[1]) or b != frozenset(d[2]): return pand(a, b)
                return None
            if d[0] == "eqv":
                a, b = IV(d[1], d[2]), IV(d[1], d[3])
                e = esub(s.mathu(a), s.mathu(b)) if False else None
                diff = [s.red(x ^ y) for x, y in zip(a.bits(), b.bits())]
                if any(x == ONE for x in diff): return ZERO
                nz = [x for x in diff if x]
                if not nz: return ONE
                if len(nz) <= 4 and sum(len(x) for x in nz) < 60:
                    r = ONE
                    for x in nz: r = pand(r, pnot(x))
                    return r
                return None
            if d[0] == "bit":
                A = ATOMS[d[1]]
                if A.kind == "elem":
                    q = s.qinst(A, d[2])
                    if q is not None: return q
                # bits of atoms pinned by linear facts
                elif A.kind == "sym" and A.w > 1:
                    c = s.pinned(d[1])
                    if c is not None: return ONE if (c >> d[2]) & 1 else ZERO
            return None
        q = psubst(p, f)
        if q == ONE or q == ZERO: return q
        if s.C != ONE:
            r = pand(s.C, q)
            if r == ZERO: return ZERO
            if r == s.C: return ONE
        return q
    def pinned(s, a):
        if not any(x == a for c in s.facts for x, _ in c[0]): return None
        for c in s.facts:
            if len(c[0]) == 1 and c[0][0][0] == a:
                k = c[0][0][1]
                v = -c[1] if k > 0 else c[1]
                if s.decide_eq((((a, 1),), -v)): return v
        return None
    def qinst(s, A, bit):
        for arr, lo, hi, w, bits in s.qf:
            if arr == A.d[0] and w == A.w and bits[bit] in (ZERO, ONE):
                if s.entails(esub(A.d[1], lo)) and s.entails(eaddc(esub(hi, A.d[1]), -1)): return bits[bit]
        return None
    def assume(s, p, val):
        """refine with p == val; returns feasibility"""
        p = s.red(p)
        if p == ONE: return bool(val)
        if p == ZERO: return not val
        if not val: p = pnot(p)
        # conjunction handling: single var / negated var / product
        if len(p) == 1:
            (m,) = p
            vs = pvars(p)
            for v in vs:
                if not s._asvar(v, True): return False
            return True
        if len(p) == 2 and 0 in p:
            m = max(p)
            if m & (m - 1) == 0: return s._asvar(m.bit_length() - 1, False)
        for v in pvars(p):
            if VARS[v][0] not in ("bit",): raise Split(("poly", pvar_of(v)))
        c = pand(s.C, p)
        if c == ZERO: return False
        s.C = c
        return True
    def _asvar(s, v, val):
        x = s.bmap.get(v)
        if x is not None: return x == val
        d = VARS[v]
        if d[0] == "ge":
            return s.add_ge(d[1]) if val else s.add_ge(eaddc(emul(d[1], -1), -1))
        if d[0] == "eq":
            if val: return s.add_eq(d[1])
            return s.add_ne(d[1])
        s.bmap = dict(s.bmap); s.bmap[v] = val
        if s.C != ONE:
            s.C = psubst(s.C, lambda u: (ONE if val else ZERO) if u == v else None)
            if s.C == ZERO: return False
        if d[0] == "eqv" and val:
            a, b = IV(d[1], d[2]), IV(d[1], d[3])
            for x, y in zip(a.bits(), b.bits()):
                if x != y and not s.assume(x ^ y, False): return False
        if d[0] == "eqv":
            pass
        if d[0] == "and" and val:
            return s.assume(frozenset(d[1]), True) and s.assume(frozenset(d[2]), True)
        if d[0] == "bit":
            A = ATOMS[d[1]]
            if var_opaque(v): s.taint = s.taint + ("opaque",) if not s.taint else s.taint
            if A.w == 1 or A.hi == 1:
                return s.add_eq((((d[1], 1),), -1 if val else 0))
        return True
    # ---- math integer view
    def mathu(s, v, signed=False):
        """mathematical integer value of v as expression; may raise Split"""
        c, ts = v.lin(); w = v.w
        if not ts: return ec(ctr(c, w) if signed else c)
        e = (tuple((a, ctr(k, w)) for a, k in ts), ctr(c, w))
        lo, hi = con_interval(e)
        L, H = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if L <= lo and hi <= H: return e
        M = 1 << w
        e2 = (e[0], c)
        lo2, hi2 = con_interval(e2)
        if L <= lo2 and hi2 <= H: return e2
        if hi - lo > 8 * M:
            for t in (e, e2):
                if s.decide_ge(eaddc(t, -L)) is True and s.decide_ge(eaddc(emul(t, -1), H)) is True: return t
            a = mkatom(("linw", w, v.lin()), "lin{%d}" % len(ATOMS), w, 0, None, "linw", (w, v.lin()), any(ATOMS[x].opaque for x, _ in ts))
            if signed:
                r = s.decide_ge(eaddc(emul(ea(a.id), -1), M // 2 - 1))
                if r is None: raise Split(("lin", eaddc(emul(ea(a.id), -1), M // 2 - 1)))
                return ea(a.id) if r else eaddc(ea(a.id), -M)
            return ea(a.id)
        for _ in range(40):
            # find window
            r = s.decide_ge(eaddc(e, -L))
            if r is None: raise Split(("lin", eaddc(e, -L)))
            if r is False: e = eaddc(e, M); continue
            r = s.decide_ge(eaddc(emul(e, -1), H))
            if r is None: raise Split(("lin", eaddc(emul(e, -1), H)))
            if r is False: e = eaddc(e, -M); continue
            return e
        raise Undecided("range normalisation")
    def cval(s, v):
        """constant value of v under facts or None"""
        c = v.const()
        if c is not None: return c
        if v._l is None or v._b is not None:
            bs = [s.red(p) for p in v.bits()]
            if all(b == ZERO or b == ONE for b in bs):
                return sum(1 << i for i, b in enumerate(bs) if b)
            if v._l is None: return None
        e = s.mathu(v)
        return s.ecval(e)
    def ecval(s, e):
        if not e[0]: return e[1]
        # candidate from facts
        for cand in s.cands(e):
            if s.decide_eq(eaddc(e, -cand)): return cand
        return None
    def cands(s, e):
        lo, hi = con_interval(con(e)) if False else (None, None)
        r = []
        ts = e[0]
        for c in s.facts:
            if c[0] == ts: r.append(-c[1] + e[1])
            elif len(ts) == 1 and len(c[0]) == 1 and c[0][0][0] == ts[0][0]:
                v = -c[1] if c[0][0][1] > 0 else c[1]
                r.append(ts[0][1] * v + e[1])
        r.append(0); r.append(e[1])
        return r

def pvar_of(v): return frozenset((1 << v,))
