"""Loop handling: decided trip counts are unrolled; otherwise an inductive
invariant is inferred by linear extrapolation of two consecutive iterates and
*verified* to be preserved by the loop body for an arbitrary iteration number.
Locations that resist are abstracted to an unknown value (havoc)."""
from .machine import *
from . import machine as M

def run_body(m, st, depth, loop, header):
    """one pass over the body, starting at the header"""
    s = st.clone()
    s.fr[-1].stamp = ("L", header)
    ex, backs = m.run([s], depth, loop, header)
    for t in ex:
        if len(t.fr) > depth and t.fr[depth].stamp == ("L", header): t.fr[depth].stamp = 0
    for t in backs: t.fr[depth].stamp = 0
    return ex, backs

def handle_loop(m, st, phase=0):
    fr = st.fr[-1]; header = fr.blk; depth = len(st.fr) - 1; loop = fr.fn.loops[header]
    # follow iterations while the trip condition is decided; generalise otherwise
    work = [(st, 0, phase, 0)]; out = []
    budget = m.maxunroll; spent = 0
    while work:
        s, k, ph, tries = work.pop()
        ex, backs = run_body(m, s, depth, loop, header)
        norm = [t for t in ex if len(t.fr) - 1 == depth and not is_landing(t)]
        spent += 1
        if backs and (norm or len(backs) > 1 or k in (6, 12)) and tries < 3 and (norm or any(countfacts(b, s) for b in backs)):
            # undecided trip count: generalise from here
            r = generalise(m, s, depth, loop, header, ex, backs)
            tries += 1
            if r is not None:
                out += r[0]
                if ph < 8:
                    for b in r[1]: work.append((b, 0, ph + 1, 0))
                else:
                    for b in r[1]: m.undecided(b, "loop", "too many phases in the loop at %s" % m.site(m.cur_inst(b.fr[-1]), b))
                continue
        out += ex
        if spent > budget:
            for b in backs: m.undecided(b, "loop", "no inductive invariant found for loop at %s" % m.site(m.cur_inst(b.fr[-1]), b))
            continue
        m.loopstats["unrolled"] += 1
        for b in backs: work.append((b, k + 1, ph, tries))
    return out

def countfacts(b, s):
    """did this iteration learn something about a count or position (not only about a byte or bit of data)?"""
    new = set(b.facts) ^ set(s.facts)
    return any(any(ATOMS[a].hi is None or ATOMS[a].hi > 255 for a, _ in c[0]) for c in new)

def is_landing(t):
    B = t.fr[-1].fn.blocks[t.fr[-1].blk]
    return bool(B.insts) and B.insts[0].op == "landingpad"

def data_dependent_exit(m, s, norm, backs):
    return False

# ------------------------------------------------------------------ locations
def joinback(m, backs, depth):
    """join several back states into one (exact if equal, otherwise unknown values)"""
    a = backs[0]
    for b in backs[1:]:
        a = join2(m, a, b, depth)
        if a is None: return None
    return a
def join2(m, a, b, depth):
    r = a.clone()
    if len(a.fr) != len(b.fr): return None
    for i, (f, g) in enumerate(zip(r.fr, b.fr)):
        if f.blk != g.blk or f.pc != g.pc: return None
        lv = f.fn.blocks[f.blk].livein if (i == depth and f.pc == 0) else m.liveset(f)
        for v in list(f.env):
            if v not in lv: 
                if i == depth: f.env.pop(v)
                continue
            x, y = f.env[v], g.env.get(v)
            if x != y:
                if isinstance(x, IV) and isinstance(y, IV): f.env[v] = havoc_val(m, r, x, "join")
                elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.o == y.o:
                    f.env[v] = Ptr(x.o, ea(fresh("poff", 64, 0, BIG, "havoc", True).id))
                else: return None
    if set(a.mem) != set(b.mem) or a.events != b.events or a.exc != b.exc or a.caught != b.caught: return None
    for k, o in a.mem.items():
        p = b.mem[k]
        if o is p or o.key() == p.key(): continue
        if o.live != p.live or o.meta != p.meta or len(o.regs) != len(p.regs): return None
        w = r.wobj(k)
        for off in set(o.cells) | set(p.cells):
            x, y = o.cells.get(off), p.cells.get(off)
            if x == y: continue
            if x is None or y is None or x[0] != y[0] or x[1][0] != y[1][0]: return None
            if isinstance(x[1][1], IV) and isinstance(y[1][1], IV):
                w.cells[off] = (x[0], (x[1][0], havoc_val(m, r, x[1][1], "join")))
            elif isinstance(x[1][1], Ptr) and isinstance(y[1][1], Ptr) and x[1][1].o == y[1][1].o:
                w.cells[off] = (x[0], (x[1][0], Ptr(x[1][1].o, ea(fresh("poff", 64, 0, BIG, "havoc", True).id))))
            else: return None
        for ri, (x, y) in enumerate(zip(o.regs, p.regs)):
            if x.segs == y.segs: continue
            if len(x.segs) != len(y.segs): return None
            ns = []
            for s1, s2 in zip(x.segs, y.segs):
                if s1[:2] != s2[:2]: return None
                if s1[2] == s2[2]: ns.append(s1); continue
                if s1[2] is None or s2[2] is None or s1[2][0] != s2[2][0]: return None
                ns.append((s1[0], s1[1], havoc_content(m, s1[2], x.esz)))
            w.regs[ri].segs = ns
    r.facts = tuple(c for c in a.facts if c in b.facts or b.entails(c))
    r.bmap = {v: x for v, x in a.bmap.items() if b.bmap.get(v) == x}
    if r.bmap != a.bmap or r.bmap != b.bmap or a.C != b.C:
        r.C = ONE if a.C != b.C else a.C
    r.neq = tuple(c for c in a.neq if c in b.neq); r.qf = tuple(q for q in a.qf if q in b.qf)
    for k, x in b.gh.items():
        if isinstance(x, int) and isinstance(r.gh.get(k), int): r.gh[k] = max(r.gh[k], x)
    if b.taint and not r.taint: r.taint = b.taint
    return r
def havoc_val(m, st, v, nm):
    m.loopstats["havoc"] += 1; m.lossy += 1
    if isinstance(v, IV):
        return ofatom(fresh(nm, v.w, 0, None, "havoc", True))
    if isinstance(v, Ptr):
        return Ptr(v.o, ea(fresh(nm + "off", 64, 0, BIG, "havoc", True).id))
    if isinstance(v, Flt): return Flt(("s", fresh(nm, 64, 0, 1000, "havoc", True).id), v.w)
    raise Undecided("havoc")
def havoc_content(m, c, esz):
    m.loopstats["havoc"] += 1; m.lossy += 1
    n = fresh("hv", 8, 0, None, "havoc", True)
    a = elem_atom("unknown%d" % n.id, ea(IDX.id), 64 if c[0] != "R" else 8 * esz); a.opaque = True
    if c[0] == "M": return c
    return (c[0], ofatom(a))

class NoGen(Exception): pass

# ------------------------------------------------------------------ recurrences
# A scalar x carried by a loop with one way round is the n-th iterate of its step F from its initial value: two loops
# with the same step over the same data and the same initial value compute the same sequence, whatever the length.
FOLDS = {}; FOLDN = fresh("N", 64, 0, BIG, "sym"); _acc = {}
def foldacc(w):
    if w not in _acc: _acc[w] = fresh("ACC%d" % w, w, 0, None, "sym")
    return _acc[w]
def deep_atoms(v, acc):
    s = set(); val_atoms(v, s); pend = list(s)
    while pend:
        a = pend.pop()
        if a in acc: continue
        acc.add(a); A = ATOMS[a]; s = set()
        if A.kind == "elem": s |= {b for b, _ in A.d[1][0]}
        elif A.kind == "bits":
            for p in A.d: val_poly(p, s)
        elif A.kind == "linw": s |= {b for b, _ in A.d[1][1]}
        elif A.kind == "fn" and A.d[0] == "mul": val_atoms(A.d[1], s)
        elif A.kind != "sym": return False
        pend += list(s)
    return True
def val_poly(p, s):
    for v in pvars(p):
        d = VARS[v]
        if d[0] == "bit": s.add(d[1])
        elif d[0] in ("ge", "eq"): s |= {b for b, _ in d[1][0]}
        elif d[0] == "and": val_poly(frozenset(d[1]), s); val_poly(frozenset(d[2]), s)
        elif d[0] == "eqv": s |= {b for l in d[2:4] for b, _ in l[1]}
        else: s.add(IDX.id)
def peeled_of(F, x0, G, y0, acc):
    """is (F, x0) the recurrence (G, y0) without its first element?"""
    if subst_val(G, {FOLDN.id: eaddc(ea(FOLDN.id), 1)}).lin() != F.lin(): return False
    z = subst_val(G, {FOLDN.id: ec(0)}); l = y0.lin()
    return subst_val(z, {acc.id: (tuple(l[1]), l[0])}).lin() == x0.lin()
def fold_of(x0, h, step, nat, n):
    """the n-th iterate of step (a function of h and nat) from x0, or None"""
    if not isinstance(x0, IV) or not isinstance(step, IV) or not isinstance(h, IV) or x0.w != h.w or x0.w > 64: return None
    (hc, ht) = h.lin()
    if hc or len(ht) != 1 or ht[0][1] != 1: return None
    acc = foldacc(h.w)
    F = subst_val(step, {ht[0][0]: ea(acc.id), nat.id: ea(FOLDN.id)})
    s = set()
    if not deep_atoms(F, s) or not deep_atoms(x0, s) or IDX.id in s: return None
    if any(ATOMS[a].name.startswith("n#") or ATOMS[a].kind == "havoc" for a in s): return None
    key = (F.w, F.lin(), x0.lin())
    if key not in FOLDS:
        nm = FOLDS[key] = "fold%d" % len(FOLDS); FOLDDEF[nm] = (F, x0, acc.id, FOLDN.id)
        for old, (G, y0, a2, _) in list(FOLDDEF.items()):      # the same sequence, begun one iterate later
            if a2 == acc.id and old != nm:
                if peeled_of(F, x0, G, y0, acc): FOLDSHIFT.setdefault(nm, (old, 1))
                elif peeled_of(G, y0, F, x0, acc): FOLDSHIFT.setdefault(old, (nm, 1))
    return ofatom(elem_atom(FOLDS[key], n, F.w))

def snapshot(m, st, depth):
    """flatten the state into location -> value"""
    loc = {}
    for i, f in enumerate(st.fr):
        lv = f.fn.blocks[f.blk].livein if i == depth else None
        if i == depth:
            for v in lv:
                if v in f.env: loc[("e", i, v)] = f.env[v]
    for k, o in st.mem.items():
        for off, x in o.cells.items(): loc[("c", k, off)] = x
        for ri, r in enumerate(o.regs):
            loc[("r", k, ri)] = tuple(r.segs)
        loc[("o", k)] = (o.live, o.meta, o.size)
    for g, x in st.gh.items():
        if not g.startswith("_"): loc[("g", g)] = x
    return loc

def extrap_e(x, y, n):
    """x at n=0, y at n=1 -> expression at n"""
    d = esub(y, x)
    if d[0]: return None
    return eadd(x, emul(n, d[1]))
def extrap_iv(x, y, n):
    if x.w != y.w: return None
    if x.lin() == y.lin(): return x
    d = ivsub(y, x).const()
    if d is not None:
        d = ctr(d, x.w)
        r = ivadd(x, e2iv(x.w, emul(n, d)))
        return r
    # element atoms moving linearly
    cx, tx = x.lin(); cy, ty = y.lin()
    if cx == cy and len(tx) == len(ty):
        ax = [(a, k) for a, k in tx if (a, k) not in ty]; ay = [(a, k) for a, k in ty if (a, k) not in tx]
        if len(ax) == len(ay) == 1 and ax[0][1] == ay[0][1]:
            A, B = ATOMS[ax[0][0]], ATOMS[ay[0][0]]
            if A.kind == B.kind == "elem" and A.d[0] == B.d[0]:
                e = extrap_e(A.d[1], B.d[1], n)
                if e is not None:
                    d = dict(tx); d.pop(A.id); at = elem_atom(A.d[0], e, A.w, A.hi); d[at.id] = d.get(at.id, 0) + ax[0][1]
                    return mklin(x.w, cx, d)
    return None
def extrap_val(x, y, n):
    if x == y: return x
    if isinstance(x, IV) and isinstance(y, IV): return extrap_iv(x, y, n)
    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.o == y.o:
        e = extrap_e(x.e, y.e, n)
        return None if e is None else Ptr(x.o, e)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        r = tuple(extrap_val(a, b, n) for a, b in zip(x, y))
        return None if any(v is None for v in r) else r
    return None
def extrap_content(x, y, n):
    if x == y: return x
    if x is None or y is None or x[0] != y[0] or len(x) != len(y): return None
    r = [x[0]]
    for a, b in zip(x[1:], y[1:]):
        v = extrap_val(a, b, n)
        if v is None: return None
        r.append(v)
    return tuple(r)
def extrap_segs(m, x, y, n):
    if x == y: return x
    if len(x) != len(y): return None
    out = []
    for (a, b, c), (a2, b2, c2) in zip(x, y):
        lo = extrap_e(a, a2, n); hi = extrap_e(b, b2, n); cc = extrap_content(c, c2, n)
        if lo is None or hi is None: return None
        if cc is None and c is not c2: return None
        out.append((lo, hi, cc))
    return tuple(out)

def put(m, st, loc, v, depth):
    k = loc[0]
    if k == "e": st.fr[loc[1]].env[loc[2]] = v
    elif k == "c":
        w = st.wobj(loc[1])
        if v is None: w.cells.pop(loc[2], None)
        else: w.cells[loc[2]] = v
    elif k == "r": st.wobj(loc[1]).regs[loc[2]].segs = list(v)
    elif k == "g": st.gh[loc[1]] = v

def generalise(m, st, depth, loop, header, ex0, backs0):
    """(exit states, states re-entering the loop header in a later phase) covering all executions of the loop from st, or None"""
    cur = st; pre = []; lex = ex0; backs = backs0; left = []
    for peel in range(3):
        m.peeled = peel
        for bi, b in enumerate(backs):
            m.peeled = peel
            r = try_generalise(m, cur, b, depth, loop, header)
            if r is not None:
                # exits/back states of cur's own pass are instances n = 0 of the generalised ones
                m.loopstats["inductive"] += 1
                return pre + r[0], left + r[1]
        if len(backs) > 1:
            j = joinback(m, backs, depth)
            if j is not None:
                m.peeled = peel
                r = try_generalise(m, cur, j, depth, loop, header)
                if r is not None:
                    m.loopstats["inductive"] += 1
                    return pre + r[0], left + r[1]
                backs = [j]
            else: break
        pre += lex
        cur = backs[0]
        lex, backs = run_body(m, cur, depth, loop, header)
        if not backs: return pre + lex, left
    m.loopfail.append((m.site(m.cur_inst(st.fr[-1]), st), getattr(m, "_lf", "?")))
    return None

def try_generalise(m, s0, s1, depth, loop, header):
    nat = fresh("n", 64, 0, BIG, "sym"); n = ea(nat.id)
    l0 = snapshot(m, s0, depth); l1 = snapshot(m, s1, depth)
    # structural compatibility
    o0 = {k for k in s0.mem}; o1 = {k for k in s1.mem}
    if o0 != o1:
        extra = {k for k in (o1 - o0) if not k.startswith("g:")}
        if (o0 - o1) or extra: m._lf = "objects differ %s" % sorted(extra | (o0 - o1))[:3]; return None
    for k in o0:
        if len(s0.mem[k].regs) != len(s1.mem[k].regs): m._lf = "region created in loop"; return None
    if s0.events != s1.events or s0.exc != s1.exc or s0.caught != s1.caught: m._lf = "events"; return None
    havoced = set(); opq = {}; folds = {}; tried = set()
    for rnd in range(8):
        sn = s0.clone()
        plan = {}
        try:
            for loc in set(l0) | set(l1):
                x, y = l0.get(loc), l1.get(loc)
                if loc in folds: plan[loc] = folds[loc]; continue
                if x == y and loc not in havoced: continue
                if loc[0] == "o": m._lf = "object state"; return None
                if loc in havoced:
                    if loc not in opq: opq[loc] = hv(m, loc, x, y)
                    plan[loc] = opq[loc]; continue
                if loc[0] == "r": v = extrap_segs(m, x, y, n)
                elif loc[0] == "c":
                    if x is None or y is None or x[0] != y[0]: v = None
                    else:
                        cc = extrap_content(x[1], y[1], n); v = None if cc is None else (x[0], cc)
                elif loc[0] == "g":
                    v = None if not isinstance(x, int) else NoGen
                    if v is NoGen: m._lf = "ghost"; return None
                else: v = extrap_val(x, y, n) if x is not None and y is not None else None
                if v is None:
                    havoced.add(loc); opq[loc] = hv(m, loc, x, y); v = opq[loc]
                plan[loc] = v
        except NoGen as e:
            m._lf = "cannot abstract %s" % e; return None
        for loc, v in plan.items(): put(m, sn, loc, v, depth)
        keys0 = dict(plan)
        # candidate invariants: iterate: run body, collect guard facts on back path, shift
        inv = []
        nv = len(m.viol); obl = dict(m.obl); und = dict(m.und); m._lastback = None
        ok, res = verify(m, sn, plan, n, nat, depth, loop, header, s0, l0, havoced)
        if ok is True and havoced and not res[1] and m._lastback is not None:
            new = {}
            for loc in havoced - tried:
                tried.add(loc)
                if loc[0] != "e" or loc not in l0 or loc not in m._lastback: continue
                f = fold_of(l0[loc], plan[loc], m._lastback[loc], nat, n)
                if f is not None: new[loc] = f
            if new:
                m.viol = m.viol[:nv]; m.obl = obl; m.und = und
                folds.update(new); havoced -= set(new); m.loopstats["fold"] = m.loopstats.get("fold", 0) + len(new)
                continue
        if ok == "havoc":
            havoced |= res; continue
        if ok: return res
        m._lf = res
        return None
    m._lf = "no stable invariant"
    return None

def hv(m, loc, x, y):
    if loc[0] == "c" and (x is None or y is None):
        z = x or y
        if z[1] is None or z[1][0] != "R": raise NoGen("object lifetime differs")
    y = x if y is None else y; x = y if x is None else x
    if loc[0] == "e":
        if isinstance(x, (IV, Flt)): return havoc_val(m, None, x, "h")
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.o == y.o: return havoc_val(m, None, x, "h")
        if isinstance(x, Undef) and isinstance(y, IV): return havoc_val(m, None, y, "h")
        raise NoGen("value %r / %r" % (x, y))
    if loc[0] == "c":
        if x[0] == y[0] and x[1][0] == y[1][0] and x[1][0] in ("R", "A") and len(x[1]) > 1 and len(y[1]) > 1:
            if isinstance(x[1][1], IV): return (x[0], (x[1][0], havoc_val(m, None, x[1][1], "h")))
            if isinstance(x[1][1], Ptr) and isinstance(y[1][1], Ptr) and x[1][1].o == y[1][1].o: return (x[0], (x[1][0], havoc_val(m, None, x[1][1], "h")))
        raise NoGen("cell %r: %r / %r" % (loc, x, y))
    if loc[0] == "r":
        if len(x) == len(y) and all(a[:2] == b[:2] for a, b in zip(x, y)):
            out = []
            for a, b in zip(x, y):
                if a[2] == b[2]: out.append(a)
                elif a[2] is not None and b[2] is not None and a[2][0] == b[2][0]:
                    out.append((a[0], a[1], havoc_content(m, a[2], 8)))
                else: raise NoGen("segments")
            return tuple(out)
        raise NoGen("segments %s / %s" % (segshow(x), segshow(y)))
    raise NoGen("loc")
def segshow(x): return "; ".join("[%s,%s) %s" % (eshow(a), eshow(b), c) for a, b, c in x)

def shift_e(e, nat, d):
    """substitute n := n+d"""
    r = e
    for a, k in e[0]:
        if a == nat.id: return eaddc(e, k * d)
    return r

def verify(m, sn, plan, n, nat, depth, loop, header, s0, l0, havoced):
    """prove: state sn(n) + invariants --body--> sn(n+1).  Returns (True, exits) / ('havoc', locs) / (False, why)"""
    # at n = 0 the plan must give l0 (by construction for extrapolated; for segments check emptiness handled by construction)
    base = sn
    inv = []          # linear invariants over n
    # guess: natural well-formedness of segment bounds is implied by facts
    for attempt in range(4):
        s = base.clone(); feasible = True
        for e in inv:
            if not s.add_ge(e): feasible = False
        if not feasible: return False, "contradictory invariant"
        mark = set(s.facts)
        nq = len(s.qf)
        nv = len(m.viol); saved_obl = dict(m.obl); saved_und = dict(m.und)
        ex, backs = run_body(m, s, depth, loop, header)
        if not backs:
            # loop never iterates again from the generalised state
            return True, (ex, [])
        base_l = snapshot(m, s, depth)
        bads = []
        for b in backs:
            why = None; bad = set()
            dm = (set(b.mem) ^ set(s.mem))
            if any(not k.startswith("g:") for k in dm): why = "objects created in the body"
            elif b.events != s.events: why = "events in the body"
            elif any(len(b.mem[k].regs) != len(s.mem[k].regs) for k in s.mem): why = "region created"
            else:
                lb = snapshot(m, b, depth)
                for loc in set(lb) | set(base_l):
                    want = plan.get(loc, base_l.get(loc))
                    got = lb.get(loc)
                    if loc in havoced:
                        if loc[0] == "r" or loc[0] == "c" and got is None:
                            if not compat(want, got, loc): why = "havoc shape"
                        elif loc[0] in ("e", "c") and not samekind(want, got): why = "havoc kind"
                        continue
                    if loc[0] == "o" and got is None: continue
                    w1 = subst_loc(want, {nat.id: eaddc(n, 1)})
                    if loc[0] == "e" and isinstance(want, IV) and isinstance(got, IV) and foldstep(m, b, want, got, n, nat): continue
                    if not same_loc(m, b, loc, w1, got): bad.add(loc)
            bads.append((why, bad))
        good = [b for b, (w, bd) in zip(backs, bads) if w is None and not bd]
        left = [b for b, (w, bd) in zip(backs, bads) if not (w is None and not bd)]
        if not good:
            m.viol = m.viol[:nv]; m.obl = saved_obl; m.und = saved_und
            cand = [bd for w, bd in bads if w is None]
            if not cand: return False, bads[0][0]
            return "havoc", min(cand, key=len)
        # strengthen: guards that held on every inductive path
        new = []
        for c in set(good[0].facts) - mark:
            if not any(a == nat.id for a, _ in c[0]): continue
            g = shift_e((c[0], c[1]), nat, -1)
            if any(con(g) == con(e) for e in inv) or base.entails(g): continue
            g0 = subst_e(g, {nat.id: ec(0)})
            if not s0.entails(g0):
                if not m.peeled and all(b.entails(shift_e(g, nat, 1)) for b in good):
                    m.viol = m.viol[:nv]; m.obl = saved_obl; m.und = saved_und
                    return False, "guard does not hold at the first iteration"
                continue
            g1 = shift_e(g, nat, 1)
            if all(b.entails(g1) for b in good): new.append(g)
        if new:
            inv += new
            m.viol = m.viol[:nv]; m.obl = saved_obl; m.und = saved_und
            continue
        if len(good) == 1 and not left: m._lastback = snapshot(m, good[0], depth)
        return True, (ex, left)
    return False, "invariant search"
def foldstep(m, st, want, got, n, nat):
    """got is the step applied to the n-th iterate"""
    c, t = want.lin()
    if c or len(t) != 1 or t[0][1] != 1: return False
    A = ATOMS[t[0][0]]
    if A.kind != "elem" or A.d[0] not in FOLDDEF or A.d[1] != n: return False
    F, x0, acc, N = FOLDDEF[A.d[0]]
    return subst_val(F, {acc: ea(A.id), N: n}).lin() == got.lin()
def samekind(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and len(a) == 2 and isinstance(a[1], tuple): return a[0] == b[0] and a[1][0] == b[1][0] and samekind(a[1][1] if len(a[1]) > 1 else 0, b[1][1] if len(b[1]) > 1 else 0)
    if isinstance(a, Ptr): return isinstance(b, Ptr) and a.o == b.o
    return type(a) is type(b)
def compat(want, got, loc):
    if got is None: return False
    if loc[0] == "r": return len(want) == len(got) and all(a[0] == b[0] and a[1] == b[1] and (a[2] is None) == (b[2] is None) and (a[2] is None or a[2][0] == b[2][0]) for a, b in zip(want, got))
    return want[0] == got[0]
def subst_loc(v, m):
    if v is None: return None
    if isinstance(v, (IV, Ptr)): return subst_val(v, m)
    if isinstance(v, tuple):
        if v and isinstance(v[0], tuple) and len(v[0]) == 3 and isinstance(v[0][0], tuple):     # segs
            return tuple((subst_e(a, m), subst_e(b, m), None if c is None else (c[0],) + tuple(subst_val(x, m) for x in c[1:])) for a, b, c in v)
        if len(v) == 2 and isinstance(v[0], int) and isinstance(v[1], tuple):
            return (v[0], (v[1][0],) + tuple(subst_val(x, m) for x in v[1][1:]))
        return tuple(subst_val(x, m) if isinstance(x, (IV, Ptr, tuple)) else x for x in v)
    return v
def same_loc(m, st, loc, want, got):
    if want == got: return True
    if want is None or got is None: return False
    if loc[0] == "r":
        return same_segs(m, st, want, got)
    if loc[0] == "c":
        return want[0] == got[0] and want[1][0] == got[1][0] and len(want[1]) == len(got[1]) and all(same_val(st, a, b) for a, b in zip(want[1][1:], got[1][1:]))
    return same_val(st, want, got)
def same_val(st, a, b):
    if a == b: return True
    if isinstance(a, IV) and isinstance(b, IV) and a.w == b.w:
        try: return st.decide_eq(esub(st.mathu(a), st.mathu(b))) is True
        except Split: return False
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o: return st.decide_eq(esub(a.e, b.e)) is True
    return False
def same_segs(m, st, a, b):
    """segment lists equal modulo provably empty segments and equal bounds"""
    def clean(s): return [x for x in s if st.decide_ge(esub(x[0], x[1])) is not True]
    a, b = clean(a), clean(b)
    def mergeadj(s):
        out = []
        for x in s:
            if out and out[-1][2] == x[2]: out[-1] = (out[-1][0], x[1], x[2])
            else: out.append(x)
        return out
    a, b = mergeadj(a), mergeadj(b)
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if st.decide_eq(esub(x[0], y[0])) is not True or st.decide_eq(esub(x[1], y[1])) is not True: return False
        if x[2] != y[2]:
            # point segments: compare instantiated
            if x[2] is None or y[2] is None: return False
            if st.decide_eq(eaddc(esub(x[1], x[0]), -1)) is True and content_at(x[2], x[0]) == content_at(y[2], x[0]): continue
            return False
    return True
