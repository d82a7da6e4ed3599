"""Abstract domains.

* integers: linear forms modulo 2^w over atoms, and/or vectors of w Boolean
  polynomials (algebraic normal form over GF(2), canonical);
* facts: a convex domain of integer linear constraints (entailment by
  Fourier-Motzkin elimination with integer tightening), plus decided bits and a
  Boolean constraint in algebraic normal form.
"""
from functools import lru_cache
from math import gcd

class Split(Exception):
    """the current trace partition must be refined on a condition"""
    def __init__(self, cond): self.cond = cond      # ('lin', E) : E>=0 / -E-1>=0   or ('poly', p)
class Undecided(Exception): pass

# ------------------------------------------------------------------ variables
VARS = []          # definitions
_varid = {}
def mkvar(d):
    i = _varid.get(d)
    if i is None:
        i = _varid[d] = len(VARS); VARS.append(d)
    return i
ZERO = frozenset(); ONE = frozenset((0,))
def pvar(d): return frozenset((1 << mkvar(d),))
LIMIT = 3000
def pand(a, b):
    if not a or not b: return ZERO
    if a == ONE: return b
    if b == ONE: return a
    if a == b: return a
    if len(a) * len(b) > 200000: return _pandop(a, b)
    r = set()
    for x in a:
        for y in b:
            z = x | y
            if z in r: r.discard(z)
            else: r.add(z)
    if len(r) > LIMIT: return _pandop(a, b)
    return frozenset(r)
def _pandop(a, b):
    k = tuple(sorted((tuple(sorted(a)), tuple(sorted(b)))))
    return pvar(("and",) + k)
def pnot(a): return a ^ ONE
def por(a, b): return a ^ b ^ pand(a, b)
def pmaj(a, b, c):
    if a == b: return a
    if a == c: return a
    if b == c: return b
    return pand(a, b) ^ pand(c, a ^ b)
def pite(c, a, b):
    if a == b: return a
    return b ^ pand(c, a ^ b)
def pvars(p):
    m = 0
    for x in p: m |= x
    r = []; i = 0
    while m:
        k = (m & -m).bit_length() - 1; r.append(k); m &= m - 1
    return r
def psubst(p, f):
    """f(varid) -> poly or None"""
    vs = pvars(p); mp = {}
    for v in vs:
        q = f(v)
        if q is not None: mp[v] = q
    if not mp: return p
    mask = 0
    for v in mp: mask |= 1 << v
    out = set()
    for m in p:
        t = m & mask
        if not t:
            out ^= {m}; continue
        q = frozenset((m & ~mask,))
        while t:
            k = (t & -t).bit_length() - 1; t &= t - 1
            q = pand(q, mp[k])
        out ^= q
    return frozenset(out)

# ---------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "name", "w", "lo", "hi", "kind", "d", "_bits", "opaque", "align")
    def __repr__(self): return self.name
ATOMS = []
_atomkey = {}
AXIOMS = {}        # atom id -> list of constraints
BIG = (1 << 46)
def mkatom(key, name, w, lo=0, hi=None, kind="sym", d=None, opaque=False):
    a = _atomkey.get(key)
    if a is None:
        a = Atom(); a.id = len(ATOMS); a.name = name; a.w = w; a.lo = lo; a.hi = (1 << w) - 1 if hi is None else hi
        a.kind = kind; a.d = d; a._bits = None; a.opaque = opaque; a.align = 0
        ATOMS.append(a); _atomkey[key] = a
    return a
_fresh = [0]
def fresh(name, w, lo=0, hi=None, kind="sym", opaque=False):
    _fresh[0] += 1
    return mkatom(("fresh", _fresh[0]), "%s#%d" % (name, _fresh[0]), w, lo, hi, kind, None, opaque)
def abits(a):
    if a._bits is None:
        if a.kind == "bits": a._bits = a.d
        else:
            n = min(a.w, max(a.hi, 0).bit_length()) if a.lo >= 0 else a.w
            a._bits = tuple(pvar(("bit", a.id, i)) for i in range(n)) + (ZERO,) * (a.w - n)
    return a._bits

# --------------------------------------------------------------- integer value
class IV:
    __slots__ = ("w", "_l", "_b")
    def __init__(self, w, l=None, b=None): self.w = w; self._l = l; self._b = b
    def lin(self):
        if self._l is None: self._l = bits2lin(self.w, self._b)
        return self._l
    def bits(self):
        if self._b is None: self._b = lin2bits(self.w, self._l)
        return self._b
    def const(self):
        if self._l is not None: return self._l[0] if not self._l[1] else None
        c = 0
        for i, p in enumerate(self._b):
            if p == ONE: c |= 1 << i
            elif p: return None
        return c
    def key(self): return (self.w, self.lin())
    def __eq__(self, o): return isinstance(o, IV) and self.w == o.w and (self is o or self.lin() == o.lin())
    def __hash__(self): return hash(self.key())
    def __repr__(self):
        c = self.const()
        if c is not None: return "%d:i%d" % (c, self.w)
        l = self.lin(); return "(" + " + ".join(["%s%s" % ("" if k == 1 else "%d*" % ctr(k, self.w), ATOMS[a].name) for a, k in l[1]] + ([str(ctr(l[0], self.w))] if l[0] else [])) + "):i%d" % self.w
def ctr(c, w):
    return c - (1 << w) if c >> (w - 1) else c
def mklin(w, c, terms):
    M = (1 << w) - 1
    t = tuple(sorted((a, k & M) for a, k in terms.items() if k & M))
    return IV(w, (c & M, t))
def cst(w, c): return IV(w, (c & ((1 << w) - 1), ()))
def ofbits(bs):
    bs = tuple(bs)
    return IV(len(bs), None, bs)
def ofatom(a, w=None): return mklin(w or a.w, 0, {a.id: 1})
def sym(name, w, lo=0, hi=None): return ofatom(fresh(name, w, lo, hi))
def opaque(name, w): return ofatom(fresh(name, w, 0, None, "opaque", True))

def slice_atom(aid, p, n):
    A = ATOMS[aid]
    a = mkatom(("slice", aid, p, n), "%s[%d+:%d]" % (A.name, p, n), n, 0, min((1 << n) - 1, A.hi >> p), "bits", None, A.opaque)
    if a.d is None:
        a.d = abits(A)[p:p+n]
        # x = 2^p*hi + lo  axioms
        if p > 0 and p + n >= A.hi.bit_length():
            lo = slice_atom(aid, 0, p)
            c = {aid: 1, a.id: -(1 << p), lo.id: -1}
            neg = {k: -v for k, v in c.items()}
            for cons in (mkcon(c, 0), mkcon(neg, 0)):
                for k in (aid, a.id, lo.id): AXIOMS.setdefault(k, []).append(cons)
    return a
def bits2lin(w, bs):
    c = 0; terms = {}; i = 0; M = (1 << w) - 1
    while i < w:
        p = bs[i]
        if p == ZERO: i += 1; continue
        if p == ONE: c |= 1 << i; i += 1; continue
        if len(p) == 1:
            (m,) = p
            if m & (m - 1) == 0:
                d = VARS[m.bit_length() - 1]
                if d[0] == "bit":
                    aid, pos = d[1], d[2]; n = 1; A = ATOMS[aid]
                    ab = abits(A)
                    while i + n < w and pos + n < A.w and bs[i+n] == ab[pos+n] and ab[pos+n] != ZERO: n += 1
                    if pos == 0 and n >= max(A.hi, 0).bit_length() and A.lo >= 0: at = A
                    else: at = slice_atom(aid, pos, n)
                    terms[at.id] = (terms.get(at.id, 0) + (1 << i)) & M
                    i += n; continue
        n = 1
        while i + n < w and bs[i+n] not in (ZERO, ONE) and not (len(bs[i+n]) == 1 and 0): n += 1
        blk = tuple(bs[i:i+n])
        at = mkatom(("bits", blk), "bits{%d}" % len(ATOMS), n, 0, None, "bits", blk)
        at.opaque = any(var_opaque(v) for q in blk for v in pvars(q))
        terms[at.id] = (terms.get(at.id, 0) + (1 << i)) & M
        i += n
    return (c & M, tuple(sorted((a, k) for a, k in terms.items() if k)))
@lru_cache(None)
def var_opaque(v):
    d = VARS[v]
    if d[0] == "bit": return ATOMS[d[1]].opaque
    if d[0] in ("ge", "eq"): return any(ATOMS[a].opaque for a, k in d[1][0])
    if d[0] == "and": return any(var_opaque(x) for p in d[1:] for m in p for x in pvars((m,)))
    if d[0] == "opq": return True
    if d[0] == "eqv": return any(ATOMS[a].opaque for l in d[2:4] for a, k in l[1])
    return False
def _bigbits(bs): return sum(len(b) for b in bs) > 6000
def lin2bits(w, l):
    c, terms = l
    acc = [ONE if (c >> i) & 1 else ZERO for i in range(w)]
    for aid, k in terms:
        ab = abits(ATOMS[aid]); A = ATOMS[aid]
        neg = False
        kk = ctr(k, w)
        if A.lo < 0: return _linw(w, l)
        if kk < 0 and bin(kk).count("1") < bin(k).count("1"): neg = True; k = -kk
        if bin(k).count("1") > 3: return _linw(w, l)
        sh = 0
        while k:
            if k & 1:
                t = [ZERO] * min(sh, w) + list(ab[:max(0, w - sh)]); t += [ZERO] * (w - len(t))
                acc = addbits(acc, [pnot(x) for x in t] if neg else t, ONE if neg else ZERO)
                if acc is None: return _linw(w, l)
            k >>= 1; sh += 1
    return tuple(acc)
def addbits(a, b, cin=ZERO):
    r = []; cy = cin; tot = 0
    for x, y in zip(a, b):
        s = x ^ y ^ cy
        r.append(s); cy = pmaj(x, y, cy)
        tot += len(s)
        if len(cy) > 400 or tot > 4000: return None
    return r
def _linw(w, l):
    a = mkatom(("linw", w, l), "lin{%d}" % len(ATOMS), w, 0, None, "linw", (w, l), any(ATOMS[x].opaque for x, _ in l[1]))
    return abits(a)

# ------------------------------------------------------------ linear constraints
def mkcon(coefs, c):
    """sum coefs*atom + c >= 0, integer-tightened"""
    t = tuple(sorted((a, k) for a, k in coefs.items() if k))
    if t:
        g = 0
        for _, k in t: g = gcd(g, k)
        if g > 1:
            t = tuple((a, k // g) for a, k in t); c = c // g
    return (t, c)
def con_neg(con): return mkcon({a: -k for a, k in con[0]}, -con[1] - 1)
def con_negeq(con): return mkcon({a: -k for a, k in con[0]}, -con[1])

def infeasible(cons):
    """True only if the integer constraint set has no solution (rational FM + tightening)."""
    best = {}
    for t, c in cons:
        if not t:
            if c < 0: return True
            continue
        if t not in best or c < best[t]: best[t] = c
    while best:
        # contradiction / equality detection
        for t, c in best.items():
            nt = tuple((a, -k) for a, k in t)
            c2 = best.get(nt)
            if c2 is not None and c + c2 < 0: return True
        eq = None
        for t, c in best.items():
            nt = tuple((a, -k) for a, k in t)
            c2 = best.get(nt)
            if c2 is not None and c + c2 == 0:
                for a, k in t:
                    if k in (1, -1): eq = (t, c, a, k); break
                if eq: break
        new = {}
        def add(d, c):
            con = mkcon(d, c)
            t, c = con
            if not t:
                return c < 0
            if t not in new or c < new[t]: new[t] = c
            return False
        if eq:
            t, c, v, kv = eq        # kv*v + rest + c = 0 -> v = -(rest+c)/kv
            rest = [(a, k) for a, k in t if a != v]
            for t2, c2 in best.items():
                kk = 0
                for a, k in t2:
                    if a == v: kk = k
                if not kk:
                    if t2 not in new or c2 < new[t2]: new[t2] = c2
                    continue
                d = {a: k for a, k in t2 if a != v}
                f = -kk * kv            # since kv = +-1: v = -kv*(rest+c)
                for a, k in rest: d[a] = d.get(a, 0) + f * k
                if add(d, c2 + f * c): return True
            best = new; continue
        pos = {}; neg = {}
        for t in best:
            for a, k in t:
                (pos if k > 0 else neg).setdefault(a, []).append((t, k))
        allv = set(pos) | set(neg)
        v = min(allv, key=lambda a: len(pos.get(a, ())) * len(neg.get(a, ())) - len(pos.get(a, ())) - len(neg.get(a, ())))
        P, N = pos.get(v, []), neg.get(v, [])
        if len(P) * len(N) > 400: return False
        inv = {t for t, _ in P} | {t for t, _ in N}
        for t, c in best.items():
            if t not in inv: new[t] = c
        for tp, kp in P:
            for tn, kn in N:
                d = {}
                for a, k in tp:
                    if a != v: d[a] = d.get(a, 0) + k * -kn
                for a, k in tn:
                    if a != v: d[a] = d.get(a, 0) + k * kp
                if add(d, best[tp] * -kn + best[tn] * kp): return True
        if len(new) > 600: return False
        best = new
    return False

def arange(a):
    A = ATOMS[a]
    return A.lo, A.hi
def con_interval(con):
    lo = hi = con[1]
    for a, k in con[0]:
        l, h = arange(a)
        if k > 0: lo += k * l; hi += k * h
        else: lo += k * h; hi += k * l
    return lo, hi

_lpcache = {}
def lp_infeasible(facts, extra):
    """facts: tuple of constraints; extra: constraint.  Only the part connected to extra."""
    lo, hi = con_interval(extra)
    if hi < 0: return True
    if lo >= 0: return False      # goal negation trivially satisfiable by ranges -> facts decide only if contradictory
    atoms = set(a for a, _ in extra[0]); used = []; rest = list(facts); seenax = set()
    pend = list(atoms)
    axs = []
    while pend:
        a = pend.pop()
        for con in AXIOMS.get(a, ()):
            if con not in seenax:
                seenax.add(con); axs.append(con)
                for b, _ in con[0]:
                    if b not in atoms: atoms.add(b); pend.append(b)
        nr = []
        for con in rest:
            if any(x == a for x, _ in con[0]):
                used.append(con)
                for b, _ in con[0]:
                    if b not in atoms: atoms.add(b); pend.append(b)
            else: nr.append(con)
        rest = nr
    key = (frozenset(used), extra)
    r = _lpcache.get(key)
    if r is not None: return r
    cons = used + axs + [extra]
    for a in atoms:
        A = ATOMS[a]
        cons.append((((a, 1),), -A.lo)); cons.append((((a, -1),), A.hi))
    r = infeasible(cons)
    _lpcache[key] = r
    return r
