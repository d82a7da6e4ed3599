import itertools, math, os, random, re, struct, time
from .interp import *
from .llvmc import Module

def fround(x, w):
    """x rounded to the nearest binary32 when w is 32"""
    if w != 32 or x != x or x in (math.inf, -math.inf): return x
    try: return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError: return math.copysign(math.inf, x)
class PathEnd(Exception): pass
class Violation(Exception):
    def __init__(self, kind, msg): self.kind = kind; self.msg = msg

MAXUNROLL = 600
FCONSTS = []
class Machine:
    def __init__(self, mod, models=None, seed=1):
        self.mod = mod; self.obl = {}; self.und = {}; self.viol = []; self.globs = {}
        self.models = models; self.nsteps = 0; self.maxsteps = 3000000; self.maxstates = 4000
        self.fnseen = set(); self.rng = random.Random(seed); self.objn = 0; self.loopstats = {"unrolled": 0, "inductive": 0, "havoc": 0}
        self.modelcache = {}; self.leakcheck = True; self.deadline = float("inf"); self.entry = None; self.sites = set(); self.loopfail = []
        self.maxunroll = MAXUNROLL; self._ba = {}; self.exact = False; self.lossy = 0; self.fixed = {}; self.fixseq = None; self.confirming = False
    # ------------------------------------------------------------- reporting
    def site(self, inst, st=None):
        f = inst.file or ""; 
        # innermost frame inside the repository headers
        if st is not None:
            for fr in reversed(st.fr):
                I = self.cur_inst(fr)
                if I is not None and I.file and "NazaraUtils" in I.file: return "%s:%d" % (I.file.split("/include/")[-1], I.line)
        return "%s:%d" % (os.path.basename(f), inst.line)
    def cur_inst(self, fr):
        B = fr.fn.blocks[fr.blk]
        return B.insts[fr.pc] if fr.pc < len(B.insts) else None
    def stack(self, st):
        r = []
        for fr in st.fr:
            I = self.cur_inst(fr)
            r.append("%s (%s:%s)" % (fr.fn.dem[:160], (I.file or "?").split("/include/")[-1] if I is not None else "?", I.line if I is not None else "?"))
        return r
    def ok(self, kind, inst, st):
        k = (self.entry, kind, self.site(inst, st)); self.obl[k] = self.obl.get(k, "ok")
    def undecided(self, st, kind, why, inst=None):
        I = inst or (self.cur_inst(st.fr[-1]) if st is not None and st.fr else None)
        k = (self.entry, kind, self.site(I, st) if I is not None else "?")
        self.obl[k] = "undecided"; self.und[(k, why)] = self.stack(st) if st is not None else []
    def report(self, st, kind, msg, inst):
        """a definite violation on this partition, provided the partition is inhabited"""
        k = (self.entry, kind, self.site(inst, st))
        if self.obl.get(k) == "violated": return
        w = self.witness(st)
        if w is None:
            self.undecided(st, kind, "no concrete witness for: " + msg, inst); return
        if self.obl.get(k) != "violated":
            self.obl[k] = "violated"
            self.viol.append(dict(entry=self.entry, kind=kind, site=k[2], msg=msg, witness=w, seqs=dict(self.wseq), stack=self.stack(st), events=[repr(e) for e in st.events[-12:]]))
    # ------------------------------------------------------------- witnesses
    def witness(self, st):
        """concretise the abstract state: an assignment of the input atoms satisfying all facts"""
        if st.taint: return None
        base = set(); seen = set()
        def visit_atom(a):
            if a in seen: return
            seen.add(a); A = ATOMS[a]
            if A.kind in ("sym", "opaque", "havoc"): base.add(a)
            elif A.kind == "elem":
                if A.d[0] in FOLDDEF:
                    F, x0, acc, N = FOLDDEF[A.d[0]]; s = set(); val_atoms(x0, s)
                    for b in s: visit_atom(b)
                else: base.add(a)
                for b, _ in A.d[1][0]: visit_atom(b)
            elif A.kind == "bits":
                for p in A.d: visit_poly(p)
            elif A.kind == "linw":
                for b, _ in A.d[1][1]: visit_atom(b)
            elif A.kind in ("udiv", "urem", "mul"):
                for e in A.d:
                    if isinstance(e, tuple):
                        for b, _ in e[0]: visit_atom(b)
            else: base.add(a)
            for c in AXIOMS.get(a, ()):
                for b, _ in c[0]: visit_atom(b)
        def visit_poly(p):
            for v in pvars(p): visit_var(v)
        def visit_var(v):
            d = VARS[v]
            if d[0] == "bit": visit_atom(d[1])
            elif d[0] in ("ge", "eq"):
                for b, _ in d[1][0]: visit_atom(b)
            elif d[0] == "and":
                visit_poly(frozenset(d[1])); visit_poly(frozenset(d[2]))
            elif d[0] == "eqv":
                for l in d[2:4]:
                    for b, _ in l[1]: visit_atom(b)
        for c in st.facts + st.neq:
            for a, _ in c[0]: visit_atom(a)
        for v in st.bmap: visit_var(v)
        visit_poly(st.C)
        if any(ATOMS[a].opaque for a in base): return None
        base = sorted(base)
        linat = sorted({a for c in st.facts + st.neq for a, _ in c[0] if a in base})
        for attempt in range(60):
            if time.time() > self.deadline: return None
            asg = {}
            facts = list(st.facts); ok = True
            order = linat[:]
            if attempt % 3 == 2: self.rng.shuffle(order)
            for a in order:
                A = ATOMS[a]; cands = [0, 1, 2, 3, 4, 5, 8, 9, 16, 33]
                lo = max([-c[1] // c[0][0][1] for c in facts if len(c[0]) == 1 and c[0][0] == (a, c[0][0][1]) and c[0][0][1] > 0] + [A.lo])
                ups = [c[1] // -c[0][0][1] for c in facts if len(c[0]) == 1 and c[0][0][0] == a and c[0][0][1] < 0] + [A.hi]
                if attempt % 3: cands = [self.rng.randrange(0, 12) for _ in range(4)] + cands
                done = False
                for x in [lo + c for c in cands] + [min(ups), (lo + min(ups)) // 2]:
                    if x < A.lo or x > A.hi: continue
                    cc = [(((a, 1),), -x), (((a, -1),), x)]
                    if not self._infe(facts + cc):
                        facts += cc; asg[a] = x; done = True; break
                if not done: ok = False; break
            if not ok: continue
            for v, x in st.bmap.items():
                d = VARS[v]
                if d[0] == "bit" and d[1] in base and d[1] not in linat:
                    o = asg.setdefault(d[1], None)
            for a in base:
                if asg.get(a) is None:
                    A = ATOMS[a]
                    r = self.rng.randrange(A.lo, min(A.hi, A.lo + (1 << 64)) + 1)
                    if attempt % 4 == 1: r = A.lo if attempt == 1 else self.rng.choice([A.lo, A.hi, A.lo + 1])
                    if attempt % 8 == 6: r = min(A.hi, 1 << self.rng.randrange(min(A.w, 64)))
                    if attempt % 4 == 3: r = min(A.hi, self.rng.getrandbits(64) & self.rng.getrandbits(64) & self.rng.getrandbits(64))
                    for v, x in st.bmap.items():
                        d = VARS[v]
                        if d[0] == "bit" and d[1] == a: r = (r | (1 << d[2])) if x else (r & ~(1 << d[2]))
                    if r < A.lo or r > A.hi: r = A.lo
                    asg[a] = r
            # local repair on bits for C
            if self._check(st, asg): return self._fmt(asg)
            if st.C != ONE or any(VARS[v][0] in ("eqv", "and") for v in st.bmap):
                bitvars = []
                for a in base:
                    if a in linat: continue
                    for i in range(min(ATOMS[a].w, 64)): bitvars.append((a, i))
                for _ in range(200):
                    if not bitvars or time.time() > self.deadline: break
                    a, i = self.rng.choice(bitvars)
                    if mkvar(("bit", a, i)) in st.bmap: continue
                    asg[a] ^= 1 << i
                    if asg[a] > ATOMS[a].hi or asg[a] < ATOMS[a].lo: asg[a] ^= 1 << i; continue
                    if self._check(st, asg): return self._fmt(asg)
        return None
    def _infe(self, facts):
        ats = {a for c in facts for a, _ in c[0]}; ex = []; pend = list(ats); seen = set()
        while pend:
            a = pend.pop()
            for c in AXIOMS.get(a, ()):
                if c not in seen:
                    seen.add(c); ex.append(c)
                    for b, _ in c[0]:
                        if b not in ats: ats.add(b); pend.append(b)
        rg = []
        for a in ats:
            rg.append((((a, 1),), -ATOMS[a].lo)); rg.append((((a, -1),), ATOMS[a].hi))
        return infeasible(facts + ex + rg)
    def _fmt(self, asg):
        self.wseq = {}; ev = Ev(asg)
        for a, v in asg.items():
            A = ATOMS[a]
            if A.kind == "elem" and A.d[0] not in FOLDDEF:
                try: self.wseq[(A.d[0], ev.e(A.d[1]))] = v
                except KeyError: pass
        return {ATOMS[a].name: v for a, v in list(asg.items())[:60]}
    def _check(self, st, asg):
        ev = Ev(asg)
        try:
            grp = {}
            for a in sorted(asg):
                if ATOMS[a].kind == "elem":
                    k = (ATOMS[a].d[0], ATOMS[a].w, ev.e(ATOMS[a].d[1]))
                    if k in grp: asg[a] = asg[grp[k]]
                    else: grp[k] = a
            ev = Ev(asg)
            for c in st.facts:
                if ev.e(c) < 0: return False
            for c in st.neq:
                if ev.e(c) == 0: return False
            for v, x in st.bmap.items():
                if ev.var(v) != x: return False
            return ev.poly(st.C) == 1
        except KeyError:
            return False
    # ------------------------------------------------------------- objects
    def newobj(self, st, kind, size, name, ty=None, default="undef"):
        o = Obj(); fr = st.fr[-1]; I = self.cur_inst(fr)
        base = "%s:%d:%s:%d" % (kind, len(st.fr), fr.fn.name, I.id); o.id = base; k = 1
        while o.id in st.mem or kind == "heap" and self.referenced(st, o.id):
            k += 1; o.id = "%s#%d" % (base, k)
        o.kind = kind; o.size = size; o.name = name; o.live = True; o.cells = {}; o.regs = []
        o.ty = ty; o.default = default; o.ro = False; o.meta = None
        st.mem[o.id] = o; st.own.add(o.id)
        return o
    def referenced(self, st, oid):
        """does any pointer to the (released) object oid remain?"""
        def hit(v):
            if isinstance(v, Ptr): return v.o == oid
            if isinstance(v, tuple): return any(hit(x) for x in v)
            return False
        for o in st.mem.values():
            for sz, c in o.cells.values():
                if c is not None and any(hit(x) for x in c[1:]): return True
            for r in o.regs:
                for lo, hi, c in r.segs:
                    if c is not None and any(hit(x) for x in c[1:]): return True
        for f in st.fr:
            for v in self.liveset(f):
                if v in f.env and hit(f.env[v]): return True
        return False
    def glob(self, st, name):
        oid = "g:" + name
        if oid in st.mem: return oid
        L = self.mod.L; p = self.mod.gptr[name]
        o = Obj(); o.id = oid; o.kind = "global"; o.name = name; o.live = True; o.cells = {}; o.regs = []; o.default = "undef"; o.meta = None
        t = self.mod.ty(L.LLVMGlobalGetValueType(p)); o.ty = t; o.size = ec(t.size); o.ro = bool(L.LLVMIsGlobalConstant(p))
        if not L.LLVMIsDeclaration(p):
            init = L.LLVMGetInitializer(p)
            key = name
            if key not in self.globs:
                cells = {}
                self.fill(cells, 0, self.mod.const(init), t)
                self.globs[key] = cells
            o.cells = dict(self.globs[key])
        elif name == "__libc_single_threaded": o.cells = {0: (1, ("R", cst(8, 1)))}   # the schedule of threads is out of scope
        st.mem[oid] = o
        return oid
    def fill(self, cells, off, c, t):
        if c[0] == "agg":
            if t.k == "struct":
                for (o, et), x in zip(t.elems, c[2]): self.fill(cells, off + o, x, et)
            else:
                for i, x in enumerate(c[2]): self.fill(cells, off + i * t.elem.size, x, t.elem)
        elif c[0] == "zero" and t.k in ("struct", "array", "vector"):
            if t.k == "struct":
                for (o, et) in t.elems: self.fill(cells, off + o, ("zero", et), et)
            else:
                for i in range(t.n): self.fill(cells, off + i * t.elem.size, ("zero", t.elem), t.elem)
        elif c[0] == "undef": pass
        else: cells[off] = (t.size, ("R", self.cval(c)))
    def cval(self, c):
        k = c[0]
        if k == "c": return cst(c[1], c[2])
        if k == "null": return NULL
        if k == "undef": return UNDEF
        if k == "f": return Flt(("c", c[2]), c[1])
        if k == "g":
            n = c[1]
            if n in self.mod.fnptr or n in self.mod.alias: return Ptr("f:" + self.mod.alias.get(n, n))
            return Ptr("g:" + n)
        if k == "cgep":
            b = self.cval(c[1]); return Ptr(b.o, eaddc(b.e, c[2]))
        if k == "zero":
            t = c[1]
            if t.k == "int": return cst(t.w, 0)
            if t.k == "ptr": return NULL
            if t.k == "float": return Flt(("c", 0.0), t.w)
            if t.k == "struct": return tuple(self.cval(("zero", e)) for _, e in t.elems)
            return tuple(self.cval(("zero", t.elem)) for _ in range(t.n))
        if k == "agg":
            return tuple(self.cval(x) for x in c[2])
        if k == "cexpr":
            op = c[1]; a = [self.cval(x) for x in c[3]]
            if op == "ptrtoint": return self.ptr2int(None, a[0], c[2].w)
            if op == "inttoptr" and a[0].const() is not None: return Ptr(None, ec(a[0].const()))
            if op == "sub": return ivsub(a[0], a[1])
            if op in ("trunc",): return trunc(a[0], c[2].w)
        if k == "meta": return UNDEF
        raise Undecided("constant %r" % (c[:2],))
    def ensure(self, st, p):
        if p.o is not None and p.o.startswith("g:") and p.o not in st.mem: self.glob(st, p.o[2:])
    def ptr2int(self, st, p, w=64):
        if p.o is None: return trunc_any(e2iv(64, p.e), w)
        a = mkatom(("addr", p.o), "addr(%s)" % p.o, 60, 1 << 12, 1 << 43, "addr", p.o)
        d = dict(p.e[0]); d[a.id] = 16
        return trunc_any(mklin(64, p.e[1], d), w)
    def int2ptr(self, st, v):
        c, t = v.lin()
        for a, k in t:
            if ATOMS[a].kind == "addr" and k == 16:
                d = {x: ctr(y, 64) for x, y in t if x != a}
                return Ptr(ATOMS[a].d, (tuple(sorted(d.items())), ctr(c, 64)))
        if not any(ATOMS[a].kind == "addr" for a, _ in t): return Ptr(None, st.mathu(v))
        raise Undecided("inttoptr")
    # ------------------------------------------------------------- memory access
    def access(self, st, p, n, inst, what):
        """common checks; returns object.  n: byte size (int or expr)"""
        if not isinstance(p, Ptr): raise Violation("memory", "%s through an uninitialised pointer" % what) if isinstance(p, Undef) else Undecided("pointer value %r" % (p,))
        if p.o is None: raise Violation("memory", "%s through a null pointer" % what)
        self.ensure(st, p)
        if p.o not in st.mem:
            if p.o.startswith("heap:"): raise Violation("memory", "%s: access to memory that was released" % what)
            if p.o.startswith("stk:"): raise Violation("memory", "%s: access to a local object after its scope ended" % what)
            raise Undecided("access to %s" % p.o)
        o = st.mem[p.o]
        if not o.live: raise Violation("memory", "%s: access to released memory %s" % (what, o.name))
        ne = n if isinstance(n, tuple) else ec(n)
        for e, m in ((p.e, "before the start"), (esub(o.size, eadd(p.e, ne)), "past the end")):
            r = st.decide_ge(e)
            if r is None: raise Split(("lin", e))
            if r is False: raise Violation("bounds", "%s %s of %s (offset %s, size %s)" % (what, m, o.name, eshow(p.e), eshow(o.size)))
        return o
    def region_for(self, st, o, e, n):
        """region containing byte offset e, or None"""
        for i, r in enumerate(o.regs):
            end = eadd(ec(r.base), emul(r.count, r.esz))
            a = st.decide_ge(eaddc(e, -r.base))
            if a is None: raise Split(("lin", eaddc(e, -r.base)))
            if not a: continue
            t = eaddc(esub(end, e), -1)
            b = st.decide_ge(t)
            if b is None: raise Split(("lin", t))
            if b: return i
        return None
    def bytearrays(self, ty):
        """(offset, size) of the byte arrays inside a type"""
        r = self._ba.get(ty)
        if r is None:
            r = []
            def walk(t, off):
                if t.k == "array":
                    if t.elem.k == "int" and t.elem.w == 8: r.append((off, t.n))
                    elif t.n == 1: walk(t.elem, off)
                elif t.k == "struct":
                    if (t.name or "").startswith("union.") and any(et.k == "array" and et.elem.k == "int" and et.elem.w == 8 for _, et in t.elems): r.append((off, t.size))
                    for oo, et in t.elems: walk(et, off + oo)
            walk(ty, 0); self._ba[ty] = r
        return r
    def mkregion(self, st, o, e, n, esz=None, base=None):
        """create a region in o so that offset e (non constant) falls inside"""
        g = 0
        for _, k in e[0]: g = gcd(g, k)
        if base is None and o.ty is not None and e[0]:
            # search the type tree for an array with that stride containing the constant part
            best = []
            def walk(t, off):
                if t.k in ("array",):
                    if t.elem.size and t.elem.size <= g and g % t.elem.size == 0 and t.n > 1: best.append((off, t.elem.size, t.n))
                    if t.n: 
                        walk(t.elem, off)
                elif t.k == "struct":
                    for oo, et in t.elems: walk(et, off + oo)
            walk(o.ty, 0)
            cand = [b for b in best if b[1] == g] or [b for b in best]
            if cand:
                for b in cand:
                    if b[0] <= max(e[1], 0) or len(cand) == 1:
                        base = b; break
                if base is None: base = cand[0]
                if base[1] < g and (base[1] * base[2]) % g == 0: base = (base[0], g, base[1] * base[2] // g)
        if base is None and o.ty is not None and not e[0]:
            # a range of unknown length at a fixed place: the array that contains it
            for off, cnt in self.bytearrays(o.ty):
                if off <= e[1] < off + cnt and (off, cnt) != (0, o.size[1] if not o.size[0] else -1):
                    s = esz or 1
                    if (e[1] - off) % s == 0 and cnt % s == 0: base = (off, s, cnt // s)
            if base is None and not o.size[0] and any(off + c[0] <= e[1] and isinstance(c[1], tuple) and len(c[1]) > 1 and isinstance(c[1][1], Ptr) for off, c in o.cells.items()):
                # no such array, and pointers in front of the place: what follows it
                s = esz or 1
                if (o.size[1] - e[1]) % s == 0: base = (e[1], s, (o.size[1] - e[1]) // s)
        w = st.wobj(o.id)
        if base is None:
            esz = esz or (n if isinstance(n, int) else (g or 1))
            cnt = edivs(o.size, esz)
            if cnt is None: cnt = None
            if cnt is None: raise Undecided("cannot form a region of stride %d in %s" % (esz, o.name))
            base = (0, esz, cnt)
        b, s, c = base
        c = c if isinstance(c, tuple) else ec(c)
        dflt = ("R", cst(8 * s, 0)) if o.default == "zero" else None
        reg = Region(b, s, c, [(ec(0), c, dflt)])
        # migrate cells
        cells = [(off, x) for off, x in w.cells.items() if off >= b and st.decide_ge(eaddc(esub(eadd(ec(b), emul(c, s)), ec(off)), -1)) is not False]
        w.regs.append(reg)
        for off, x in sorted(cells):
            del w.cells[off]
        for off, (sz, x) in sorted(cells):
            if sz == s and (off - b) % s == 0: self.seg_set(st, reg, ec((off - b) // s), x)
            elif sz < s or sz % s:
                raise Undecided("region migration")
            else:
                iv = x[1]
                if not isinstance(iv, IV): raise Undecided("region over a pointer")
                for k in range(sz // s):
                    self.seg_set(st, reg, ec((off - b) // s + k), ("R", ofbits(iv.bits()[8*s*k:8*s*(k+1)])))
        return len(w.regs) - 1
    def locate(self, st, reg, idx):
        for k, (lo, hi, c) in enumerate(reg.segs):
            t = eaddc(esub(hi, idx), -1)
            r = st.decide_ge(t)
            if r is None: raise Split(("lin", t))
            if r: return k
        raise Undecided("index outside region")
    def seg_get(self, st, reg, idx):
        k = self.locate(st, reg, idx)
        return content_at(reg.segs[k][2], idx)
    def seg_set(self, st, reg, idx, c):
        k = self.locate(st, reg, idx)
        lo, hi, old = reg.segs[k]
        n1 = eaddc(idx, 1)
        cr = content_rel(c, idx)
        new = reg.segs[:k]
        if lo != idx and st.decide_ge(esub(lo, idx)) is not True: new.append((lo, idx, old))
        new.append((idx, n1, cr))
        if hi != n1 and st.decide_ge(esub(n1, hi)) is not True: new.append((n1, hi, old))
        new += reg.segs[k+1:]
        reg.segs = self.segnorm(st, new)
    def segnorm(self, st, segs):
        out = []
        for s in segs:
            if s[0] == s[1]: continue
            while out:
                l = out[-1]
                if l[2] == s[2] and l[1] == s[0]: out.pop(); s = (l[0], s[1], s[2]); continue
                # point segment absorbed by neighbour function
                if l[1] == s[0] and l[2] is not None and s[2] is not None:
                    if esub(s[1], s[0]) == ec(1) and content_at(l[2], s[0]) == content_at(s[2], s[0]): out.pop(); s = (l[0], s[1], l[2]); continue
                    if esub(s[1], s[0]) == ec(1) and esub(l[1], l[0]) == ec(1) and l[2][0] == s[2][0] and len(l[2]) == 2 and isinstance(l[2][1], IV) and isinstance(s[2][1], IV) and l[2][1].w == s[2][1].w:
                        c0 = content_at(l[2], l[0])[1]; c1 = content_at(s[2], s[0])[1]; d = ivsub(c1, c0).const()
                        if d is not None and abs(ctr(d, c0.w)) < 4096:
                            d = ctr(d, c0.w)
                            out.pop(); s = (l[0], s[1], (l[2][0], ivadd(c0, e2iv(c0.w, emul(esub(ea(IDX.id), l[0]), d))))); continue
                    if esub(s[1], s[0]) == ec(1) and esub(l[1], l[0]) == ec(1) and l[2][0] == s[2][0]:
                        c0 = content_rel(content_at(l[2], l[0]), l[0], True)
                        if c0 == content_rel(content_at(s[2], s[0]), s[0], True): out.pop(); s = (l[0], s[1], c0); continue
                    if esub(l[1], l[0]) == ec(1) and content_at(s[2], l[0]) == content_at(l[2], l[0]): out.pop(); s = (l[0], s[1], s[2]); continue
                break
            out.append(s)
        return out
    def seg_cut(self, st, reg, pos):
        """make pos a segment boundary"""
        new = []
        for i, (lo, hi, c) in enumerate(reg.segs):
            if pos == lo or pos == hi: new.append((lo, hi, c)); continue
            a = st.decide_ge(eaddc(esub(pos, lo), -1))      # pos > lo
            if a is None: raise Split(("lin", eaddc(esub(pos, lo), -1)))
            b = a and st.decide_ge(eaddc(esub(hi, pos), -1))
            if a and b is None: raise Split(("lin", eaddc(esub(hi, pos), -1)))
            if a and b: new.append((lo, pos, c)); new.append((pos, hi, c))
            else: new.append((lo, hi, c))
        reg.segs = new
    def seg_range(self, st, reg, lo, hi):
        """indices of segments within [lo,hi) after cutting; lo<=hi"""
        self.seg_cut(st, reg, lo); self.seg_cut(st, reg, hi)
        r = []
        for k, (a, b, c) in enumerate(reg.segs):
            x = st.decide_ge(esub(a, lo)); 
            if x is None: raise Split(("lin", esub(a, lo)))
            y = st.decide_ge(esub(hi, b))
            if y is None: raise Split(("lin", esub(hi, b)))
            if x and y: r.append(k)
        return r
    def getcontent(self, st, p, n, inst, what):
        """content tuple for an n-byte access"""
        o = self.access(st, p, n, inst, what)
        e = p.e
        ri = self.region_for(st, o, e, n) if o.regs else None
        if ri is None and e[0]:
            ce = st.ecval(e)
            if ce is not None: e = ec(ce)
            elif o.ro and not o.regs: return self.table(st, o, e, n)
            else:
                ri = self.mkregion(st, o, e, n); o = st.mem[p.o]
        if ri is not None:
            reg = o.regs[ri]; rel = eaddc(e, -reg.base)
            if n == reg.esz:
                idx = edivs(rel, reg.esz)
                if idx is None:
                    ce = st.ecval(rel)
                    if ce is not None and ce % reg.esz == 0: idx = ec(ce // reg.esz)
                    else: raise Undecided("misaligned region access %s / %d" % (eshow(rel), reg.esz))
                return self.seg_get(st, reg, idx)
            if n % reg.esz == 0:
                idx = edivs(rel, reg.esz)
                if idx is None: raise Undecided("misaligned")
                bs = []
                for k in range(n // reg.esz):
                    c = self.seg_get(st, reg, eaddc(idx, k))
                    if c is None: return None
                    bs += list(self.asint(c[1], 8 * reg.esz).bits())
                return ("R", ofbits(bs))
            if reg.esz % n == 0:
                r = rel[1] % reg.esz
                idx = edivs(eaddc(rel, -r), reg.esz)
                if idx is None: raise Undecided("sub-element access")
                c = self.seg_get(st, reg, idx)
                if c is None: return None
                return ("R", ofbits(self.asint(c[1], 8 * reg.esz).bits()[8*r:8*(r+n)]))
            raise Undecided("region access size")
        off = e[1]
        c = o.cells.get(off)
        if c is not None and c[0] == n: return c[1]
        # gather bytes
        bs = []; k = off; found = False
        while k < off + n:
            hit = None
            for o2, (sz, x) in o.cells.items():
                if o2 <= k < o2 + sz: hit = (o2, sz, x); break
            if hit is None:
                if o.default == "zero": bs += [ZERO] * 8; k += 1; found = True; continue
                if o.default == "undef":
                    if found: 
                        bs += [pvar(("opq", o.id, k, i)) for i in range(8)]; k += 1; continue
                    if any(off <= o2 < off + n for o2 in o.cells):
                        bs += [pvar(("opq", o.id, k, i)) for i in range(8)]; k += 1; continue
                    return None
                raise Undecided("default content")
            found = True
            o2, sz, x = hit
            if x[0] != "R": return x if (o2 == off) else None
            if isinstance(x[1], Undef): return None
            iv = self.asint(x[1], 8 * sz)
            a = k - o2; b = min(sz, off + n - o2)
            bs += list(iv.bits()[8*a:8*b]); k = o2 + b
        return ("R", ofbits(bs))
    def table(self, st, o, e, n):
        """read of a constant table at a data dependent index: exact Boolean polynomials by Moebius transform"""
        atoms = [(a, k) for a, k in e[0]]
        vs = []; expr = []
        for a, k in atoms:
            bs = [st.red(b) for b in abits(ATOMS[a])]
            expr.append((k, bs))
            for b in bs:
                for v in pvars(b):
                    if v not in vs: vs.append(v)
        comp = None
        if len(vs) > 12:        # indexed by a few computed bits: tabulate over those, then substitute
            nb = [b for k, bs in expr for b in bs if b not in (ZERO, ONE)]
            if len(set(nb)) > 12: raise Undecided("table index")
            comp = {}
            for b in nb: comp.setdefault(b, pvar(("tix", len(comp))))
            expr = [(k, [comp.get(b, b) for b in bs]) for k, bs in expr]
            vs = [max(q).bit_length() - 1 for q in comp.values()]
            comp = {max(q).bit_length() - 1: b for b, q in comp.items()}
        N = 1 << len(vs); outs = []
        pos = {v: i for i, v in enumerate(vs)}
        def evalp(p, x):
            r = 0
            for m in p:
                t = 1; mm = m
                while mm:
                    v = (mm & -mm).bit_length() - 1; mm &= mm - 1
                    if not (x >> pos[v]) & 1: t = 0; break
                r ^= t
            return r
        if len(atoms) == 1 and all(len(b) <= 1 and (not b or max(b) & (max(b) - 1) == 0) for b in expr[0][1]):
            k, bs = expr[0]
            def off(x):
                r = 0
                for i, b in enumerate(bs):
                    if b == ONE: r |= 1 << i
                    elif b:
                        (m,) = b
                        if (x >> pos[m.bit_length() - 1]) & 1: r |= 1 << i
                return e[1] + k * r
        else:
            def off(x):
                r = e[1]
                for k, bs in expr:
                    r += k * sum(evalp(b, x) << i for i, b in enumerate(bs))
                return r
        for x in range(N):
            c = o.cells.get(off(x))
            if c is None or c[0] != n or not isinstance(c[1][1], IV): raise Undecided("table entry")
            outs.append(c[1][1].const())
        res = []
        for i in range(8 * n):
            t = [(y >> i) & 1 for y in outs]
            h = 1
            while h < N:
                for j in range(0, N, 2 * h):
                    for l in range(j, j + h): t[l + h] ^= t[l]
                h *= 2
            p = set()
            for x in range(N):
                if t[x]:
                    m = 0
                    for j, v in enumerate(vs):
                        if (x >> j) & 1: m |= 1 << v
                    p.add(m)
            p = frozenset(p)
            res.append(p if comp is None else psubst(p, comp.get))
        return ("R", ofbits(res))
    def frozen(self, st, o, inst, what):
        """nothing that existed before an operation meant to leave it alone may be written (atomic counters and guarded statics apart)"""
        if o.kind == "global":
            if st.gh.get("_guard") or self.mod.threadlocal(o.name): return
        elif o.id not in st.gh["_frozen"]: return
        if inst is not None and inst.op in ("atomicrmw", "cmpxchg"): return
        if any("__exchange_and_add" in f.fn.name or "__atomic_add" in f.fn.name for f in st.fr[-3:]): return
        raise Violation("effect", "%s of memory that is shared (%s)" % (what, o.name))
    def setcontent(self, st, p, n, c, inst, what):
        o = self.access(st, p, n, inst, what)
        e = p.e
        if o.ro: raise Violation("memory", "%s: write to constant data" % what)
        if "_frozen" in st.gh: self.frozen(st, o, inst, what)
        ri = self.region_for(st, o, e, n) if o.regs else None
        if ri is None and e[0]:
            ce = st.ecval(e)
            if ce is not None: e = ec(ce)
            else:
                ri = self.mkregion(st, o, e, n)
        if ri is None and c is not None and c[0] == "A" and o.ty is not None:
            # element storage inside an object: one region as soon as the first element is built
            for off, sz in self.bytearrays(o.ty):
                if off <= e[1] < off + sz and sz > 8 * n and sz % n == 0 and (e[1] - off) % n == 0:
                    ri = self.mkregion(st, o, e, n, base=(off, n, sz // n)); break
        w = st.wobj(p.o)
        if ri is not None:
            reg = w.regs[ri]; rel = eaddc(e, -reg.base)
            if n == reg.esz:
                idx = edivs(rel, reg.esz)
                if idx is None:
                    ce = st.ecval(rel)
                    if ce is None or ce % reg.esz: raise Undecided("misaligned region access")
                    idx = ec(ce // reg.esz)
                self.seg_set(st, reg, idx, c); return
            if n % reg.esz == 0 and c is not None and c[0] == "R":
                idx = edivs(rel, reg.esz)
                if idx is None: raise Undecided("misaligned")
                bs = self.asint(c[1], 8 * n).bits()
                for k in range(n // reg.esz):
                    self.seg_set(st, reg, eaddc(idx, k), ("R", ofbits(bs[8*reg.esz*k:8*reg.esz*(k+1)])))
                return
            raise Undecided("region write size")
        self.cellwrite(w, e[1], n, c)
    def cellwrite(self, w, off, n, c):
        kill = [(o2, x) for o2, x in w.cells.items() if o2 < off + n and off < o2 + x[0]]
        for o2, (sz, x) in kill:
            del w.cells[o2]
            if o2 >= off and o2 + sz <= off + n: continue
            if x is None or x[0] != "R" or isinstance(x[1], Undef): continue
            try: bs = self.asint(x[1], 8 * sz).bits()
            except Undecided: continue
            if o2 < off: w.cells[o2] = (off - o2, ("R", ofbits(bs[:8*(off-o2)])))
            if o2 + sz > off + n:
                d = off + n - o2
                w.cells[off+n] = (sz - d, ("R", ofbits(bs[8*d:])))
        if c is not None: w.cells[off] = (n, c)
    def asint(self, v, w):
        if isinstance(v, IV):
            if v.w == w: return v
            if v.w < w: return ofbits(tuple(v.bits()) + (ZERO,) * (w - v.w))
            return trunc(v, w)
        if isinstance(v, Ptr): return self.ptr2int(None, v, w)
        if isinstance(v, Flt):
            if v.t[0] == "ofbits": return IV(w, *v.t[1])
            if v.t[0] == "c":
                import struct
                return cst(w, int.from_bytes(struct.pack("<f" if w == 32 else "<d", v.t[1]), "little"))
            return ofatom(mkatom(("fbits", v.t, w), "fbits%d" % len(ATOMS), w, 0, None, "fbits", v.t))
        raise Undecided("not an integer: %r" % (v,))
    def tofloat(self, v, w):
        c = v.const()
        if c is not None:
            import struct
            return Flt(("c", struct.unpack("<f" if w == 32 else "<d", c.to_bytes(w // 8, "little"))[0]), w)
        l = v.lin()
        if len(l[1]) == 1 and l[0] == 0 and l[1][0][1] == 1 and ATOMS[l[1][0][0]].kind == "fbits": return Flt(ATOMS[l[1][0][0]].d, w)
        return Flt(("ofbits", (l, None)), w)
    def load(self, st, p, ty, inst):
        if ty.k in ("struct", "array", "vector"):
            el = ty.elems if ty.k == "struct" else [(i * ty.elem.size, ty.elem) for i in range(ty.n)]
            return tuple(self.load(st, Ptr(p.o, eaddc(p.e, o)), t, inst) for o, t in el)
        if p.__class__ is Ptr and p.o in ("g:stderr", "g:stdout"): return p # the streams of the C library, opaque
        c = self.getcontent(st, p, ty.size, inst, "read")
        if c is None: return UNDEF
        if c[0] == "A" or c[0] == "M":
            if c[0] == "M": return UNDEF
            v = c[1]
        else: v = c[1]
        return self.conv(st, v, ty)
    def conv(self, st, v, ty):
        if isinstance(v, Undef): return v
        if ty.k == "int":
            if isinstance(v, IV): return v if v.w == ty.w else trunc(v, ty.w) if v.w > ty.w else ofbits(tuple(v.bits()) + (ZERO,) * (ty.w - v.w))
            return trunc_any(self.asint(v, ty.size * 8), ty.w)
        if ty.k == "ptr":
            if isinstance(v, Ptr): return v
            return self.int2ptr(st, v)
        if ty.k == "float":
            if isinstance(v, Flt): return v
            return self.tofloat(self.asint(v, ty.w), ty.w)
        raise Undecided("type %r" % ty)
    def store(self, st, p, v, ty, inst):
        if ty.k in ("struct", "array", "vector"):
            el = ty.elems if ty.k == "struct" else [(i * ty.elem.size, ty.elem) for i in range(ty.n)]
            if isinstance(v, Undef): return
            for (o, t), x in zip(el, v): self.store(st, Ptr(p.o, eaddc(p.e, o)), x, t, inst)
            return
        if isinstance(v, IV) and v.w % 8:
            v = ofbits(tuple(v.bits()) + (ZERO,) * (ty.size * 8 - v.w))
        self.setcontent(st, p, ty.size, None if isinstance(v, Undef) else ("R", v), inst, "write")
    # ------------------------------------------------------------- run
    def run_entry(self, name, args=None, init=None):
        """a cheap pass joining states approximately; when it does not settle everything, a pass with exact joins only"""
        self.exact = False; self.lossy = 0
        self.run_once(name, args, init)
        if self.lossy and (self.viol or self.und):
            self.viol = []; self.und = {}; self.obl = {}; self.exact = True
            self.run_once(name, args, init)
        self.confirm(name, args, init)
    def confirm(self, name, args, init):
        """analyse each reported partition again, restricted to its witness: a report that disappears was an artefact of a join or of a loop invariant"""
        if not self.viol or self.confirming: return
        viol = self.viol; keep = []; obl = self.obl; und = self.und; ends = self.ends; fin = self.finished; ls = dict(self.loopstats)
        self.confirming = True; exact = self.exact
        if self.deadline != float("inf"): self.deadline = max(self.deadline, time.time() + 8)
        for v in viol[:12]:
            fx = {k: x for k, x in v["witness"].items() if re.match(r"^(size|small|bool|pick|[ui]\d+)\.\d+$", k)}
            self.trace = []; self.viol = []; self.obl = {}; self.und = {}; self.exact = True; self.fixed = fx; self.fixseq = v.pop("seqs")
            try: self.run_once(name, args, init)
            except Exception: self.und = {1: 1}
            if self.viol: v["calls"] = list(dict.fromkeys(self.trace))[-40:]; keep.append(v)
            else:
                k = (name, v["kind"], v["site"]); obl[k] = "undecided"; und[(k, "not confirmed on the witness partition: " + v["msg"])] = v["stack"]
        self.viol = keep; self.obl = obl; self.und = und; self.fixed = {}; self.fixseq = None; self.confirming = False; self.exact = exact; self.ends = ends; self.finished = fin; self.loopstats = ls
    def run_once(self, name, args=None, init=None):
        self.entry = name
        st = State()
        f = self.mod.fn(name)
        env = {}
        for i, (pid, ty) in enumerate(f.params):
            env[pid] = args[i] if args else self.symarg(ty, "arg%d" % i)
        fr = Frame(); fr.fn = f; fr.blk = 0; fr.prev = -1; fr.pc = 0; fr.env = env; fr.call = None; fr.allocas = (); fr.stamp = 0
        st.fr.append(fr)
        if init: init(self, st)
        self.finished = 0; self.ends = {}
        try:
            ex, backs = self.run([st], 0, None, None)
        except Undecided as u:
            self.undecided(None, "analysis", str(u))
    def symarg(self, ty, name):
        if ty.k == "int": return sym(name, ty.w)
        if ty.k == "float": return self.symfloat(name, ty.w)
        raise Undecided("entry argument")
    def symfloat(self, name, w):
        a = fresh(name, 64, 0, 1000, "ford")
        return Flt(("s", a.id), w)
    def poskey(self, st):
        r = []
        for f in st.fr: r += [f.fn.blocks[f.blk].rpo, f.pc]
        return tuple(r)
    def run(self, states, depth, region, header):
        """runs until frame `depth` leaves `region` (set of blocks) or comes back to header.
        region None: run to completion"""
        backs = []; exits = []
        heap = []; cnt = itertools.count(); waiting = {}
        def push(s):
            k = self.poskey(s)
            fr = s.fr[-1]
            if fr.pc == 0 and k in waiting:
                for i, (t, alive) in enumerate(waiting[k]):
                    if alive[0] and self.merge(t, s): return
            alive = [True]
            waiting.setdefault(k, []).append((s, alive))
            heapq.heappush(heap, (k, next(cnt), s, alive))
        for s in states: push(s)
        while heap:
            k, _, s, alive = heapq.heappop(heap)
            alive[0] = False
            waiting[k] = [x for x in waiting.get(k, ()) if x[1][0]]
            if not waiting[k]: del waiting[k]
            if len(heap) > self.maxstates: raise Undecided("too many partitions")
            for out in self.block(s, depth, region, header):
                kind, t = out
                if kind == "go": push(t)
                elif kind == "back": backs.append(t)
                elif kind == "exit": exits.append(t)
        return exits, backs
    def merge(self, a, b):
        """try to merge b into a (same position).  exact equality of everything but facts"""
        if len(a.fr) != len(b.fr): return False
        for i, (f, g) in enumerate(zip(a.fr, b.fr)):
            if f.fn is not g.fn or f.blk != g.blk or f.pc != g.pc: return False
            last = i == len(a.fr) - 1
            if last and f.pc == 0:
                for v in f.fn.blocks[f.blk].livein:
                    if f.env.get(v) != g.env.get(v): return False
            else:
                lv = self.liveset(f)
                for v in lv:
                    if f.env.get(v) != g.env.get(v): return False
        if a.exc != b.exc or a.caught != b.caught or a.events != b.events or a.C != b.C and False: return False
        if a.gh != b.gh or a.taint != b.taint: return False
        if set(a.mem) != set(b.mem):
            return False
        for k, o in a.mem.items():
            o2 = b.mem[k]
            if o is not o2 and o.key() != o2.key(): return False
        fa = tuple(c for c in a.facts if c in b.facts or b.entails(c))
        fb = tuple(c for c in b.facts if c not in fa and a.entails(c))
        if not self.exactjoin(a, b, fa, fb) or (a.bmap != b.bmap or a.C != b.C) and self.crossed(a, b, fa + fb):
            if self.exact: return False
            self.lossy += 1
        bm = {v: x for v, x in a.bmap.items() if b.bmap.get(v) == x}
        C = a.C if a.C == b.C else ONE
        if C == ONE and a.C != b.C:
            # keep the disjunction when small
            if len(a.bmap) == len(b.bmap) and a.bmap == b.bmap: C = por(a.C, b.C)
        if bm != a.bmap or bm != b.bmap:
            da = [v for v in a.bmap if v not in bm]; db = [v for v in b.bmap if v not in bm]
            if len(da) == 1 and len(db) == 1 and da[0] == db[0] and a.C == b.C: pass
            else:
                pa = a.C; pb = b.C
                for v in da: pa = pand(pa, pvar_of(v) if a.bmap[v] else pnot(pvar_of(v)))
                for v in db: pb = pand(pb, pvar_of(v) if b.bmap[v] else pnot(pvar_of(v)))
                C = por(pa, pb)
        a.facts = fa + fb; a.bmap = bm; a.C = C
        a.neq = tuple(c for c in a.neq if c in b.neq); a.qf = tuple(q for q in a.qf if q in b.qf)
        return True
    def crossed(self, a, b, com):
        """the states differ in linear facts and in boolean ones, and neither contains the other: their join would lose which goes with which"""
        la = all(c in com for c in a.facts); lb = all(c in com for c in b.facts)
        if la and lb: return False
        wide = lambda x, y: x.C in (ONE, y.C) and all(y.bmap.get(v) == k for v, k in x.bmap.items())
        return not (la and wide(a, b) or lb and wide(b, a))
    def exactjoin(self, a, b, fa, fb):
        """does the join of the linear facts describe exactly the union of both states?"""
        if a.qf != b.qf or set(a.neq) != set(b.neq): return False
        com = fa + fb
        da = [c for c in a.facts if c not in com]; db = [c for c in b.facts if c not in com]
        if not da or not db: return True
        if len(da) > 6 or len(db) > 6: return False
        for f in da:
            nf = con_neg(f)
            if lp_infeasible(com, nf): continue
            for g in db:
                if not lp_infeasible(com + (nf,), con_neg(g)): return False
        return True
    def liveset(self, f):
        """over-approximation of live values of a suspended frame"""
        B = f.fn.blocks[f.blk]
        key = (f.fn.name, f.blk)
        c = self.modelcache.get(("live",) + key)
        if c is None:
            c = set(B.livein)
            for I in B.insts: c.add(I.id)
            self.modelcache[("live",) + key] = c
        return c
    def goto(self, st, target):
        fr = st.fr[-1]; src = fr.blk
        B = fr.fn.blocks[target]
        vals = []
        for ph in B.phis:
            for pb, o in ph.ops:
                if pb == src:
                    vals.append((ph.id, self.ev(st, fr, o, ph.ty))); break
        for i, v in vals: fr.env[i] = v
        fr.prev = src; fr.blk = target; fr.pc = 0
    def ev(self, st, fr, o, ty=None):
        if o[0] == "v":
            return fr.env[o[1]]
        return self.cval(o)
    def classify(self, st, depth, region, header):
        if region is None: return "go"
        if len(st.fr) - 1 < depth: return "exit"
        if len(st.fr) - 1 == depth and st.fr[-1].pc == 0:
            b = st.fr[-1].blk
            if b == header: return "back"
            if b not in region: return "exit"
        return "go"
    def block(self, st, depth, region, header):
        """execute until next control transfer; yields (kind,state)"""
        out = []
        work = [st]
        while work:
            s = work.pop()
            while True:
                fr = s.fr[-1]
                # loop entry?
                if fr.pc == 0 and fr.blk in fr.fn.loops and not (len(s.fr) - 1 == depth and fr.blk == header) and fr.stamp != ("L", fr.blk):
                    for t in self.handle_loop(s):
                        if t.fr: out.append((self.classify(t, depth, region, header), t))
                    break
                I = fr.fn.blocks[fr.blk].insts[fr.pc]
                self.nsteps += 1
                if self.nsteps > self.maxsteps: raise Undecided("step budget")
                if (self.nsteps & 255) == 0 and time.time() > self.deadline: raise Undecided("time budget")
                pre = None
                try:
                    r = self.step(s, fr, I)
                except Split as sp:
                    for t in self.refine(s, sp.cond): work.append(t)
                    break
                except PathEnd: break
                except Violation as v:
                    self.report(s, v.kind, v.msg, I); break
                except Undecided as u:
                    if "budget" in str(u): raise
                    self.undecided(s, "analysis", str(u), I); break
                if r is None: continue
                for t in r:
                    if t.fr: out.append((self.classify(t, depth, region, header), t))
                    else: self.finish(t)
                break
        return out
    def finish(self, st):
        self.finished += 1
    def refine(self, s, cond):
        a = s.clone(); b = s.clone(); r = []
        if cond[0] == "lin":
            p = self.databits(s, cond[1])
            if a.add_ge(cond[1]): r += [a] if p is None else self.assume(a, p, True)
            if b.add_ge(eaddc(emul(cond[1], -1), -1)): r += [b] if p is None else self.assume(b, p, False)
        else:
            p = cond[1]
            for t, val in ((a, True), (b, False)):
                r += self.assume(t, p, val)
        return r
    def databits(self, s, e):
        """the bound e >= 0 on one small datum, also as a condition on its bits"""
        if len(e[0]) != 1 or e[0][0][1] not in (1, -1): return None
        a, k = e[0][0]; A = ATOMS[a]
        if A.w > 8 or A.kind not in ("sym", "elem") or A.lo != 0: return None
        x = ofatom(A)
        if k == 1:   # x >= -c
            if not 0 <= -e[1] < 1 << A.w: return None
            p = self.bitlt(s, x, cst(A.w, -e[1]), False)
            return None if p is None else pnot(p)
        return None if not 0 <= e[1] < 1 << A.w else (lambda p: None if p is None else pnot(p))(self.bitlt(s, cst(A.w, e[1]), x, False))
    def assume(self, t, p, val):
        try:
            return [t] if t.assume(p, val) else []
        except Split as sp:
            r = []
            for u in self.refine(t, sp.cond): r += self.assume(u, p, val)
            return r
    # ------------------------------------------------------------- instructions
    def binop(self, st, op, a, b, I):
        if isinstance(a, tuple): return tuple(self.binop(st, op, x, y, I) for x, y in zip(a, b))
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        w = a.w
        if I is not None and I.x.get("nsw"):
            x, y = st.cval(a), st.cval(b)
            if x is not None and y is not None:
                x, y = ctr(x, w), ctr(y, w)
                r = x + y if op == "add" else x - y if op == "sub" else x * y
                if not -(1 << (w-1)) <= r < 1 << (w-1): raise Violation("ub", "signed overflow: %d-bit %s of %d and %d" % (w, op, x, y))
        if op == "add": return ivadd(a, b)
        if op == "sub": return ivsub(a, b)
        if op in ("and", "or", "xor"): return self.bitop(st, op, a, b)
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                c = st.cval(y)
                if c is not None: return ivmulc(x, c)
            return ofatom(mkatom(("fn", "mul", tuple(sorted((a, b), key=lambda v: repr(v.lin()))), w), "mul%d" % len(ATOMS), w, 0, None, "fn", ("mul", (a, b)), any(ATOMS[x].opaque for v in (a, b) for x, _ in v.lin()[1])))
        if op in ("shl", "lshr", "ashr"):
            c = st.cval(b)
            if c is None: c = self.concretize(st, b, w)
            if c >= w: raise Violation("ub", "shift of a %d-bit value by %d" % (w, c))
            return self.shift(st, op, a, c)
        if op in ("udiv", "urem", "sdiv", "srem"):
            c = st.cval(b)
            if c is None:
                ca = st.cval(a)
                if ca == 0: return a
                c = self.concretize(st, b, 70)
            if c == 0: raise Violation("ub", "division by zero")
            if op in ("udiv", "urem"): return self.udivrem(st, op, a, c)
            sc = ctr(c, w)
            if sc == -1 and st.cval(a) == 1 << (w - 1): raise Violation("ub", "signed overflow in a division")
            e = st.mathu(a, True)
            q = edivs(e, sc)
            if q is not None: return e2iv(w, q) if op == "sdiv" else cst(w, 0)
            r = st.decide_ge(e)
            if r is None: raise Split(("lin", e))
            if not r: a = ivsub(cst(w, 0), a)       # the quotient of the magnitudes, as C++ rounds towards zero
            v = self.udivrem(st, "udiv" if op == "sdiv" else "urem", a, abs(sc))
            neg = (not r) if op == "srem" else r == (sc < 0)
            return ivsub(cst(w, 0), v) if neg else v
        raise Undecided("binop " + op)
    def concretize(self, st, v, maxn):
        if v._b is not None or not v.lin()[1] or len(v.lin()[1]) == 1 and ATOMS[v.lin()[1][0][0]].kind != "sym":
            # data bits: split on the bits one at a time
            for p in v.bits():
                q = st.red(p)
                if q not in (ZERO, ONE): raise Split(("poly", q))
        e = st.mathu(v)
        lo = 0
        # smallest feasible value by galloping
        if st.decide_ge(eaddc(emul(e, -1), maxn)) is not True:
            r = st.decide_ge(eaddc(emul(e, -1), maxn))
            if r is None: raise Split(("lin", eaddc(emul(e, -1), maxn)))
            raise Undecided("shift/divisor amount out of range")
        a, b = 0, maxn
        while a < b:
            m = (a + b) // 2
            r = st.decide_ge(eaddc(emul(e, -1), m))   # e<=m
            if r is True: b = m
            elif r is False: a = m + 1
            else: raise Split(("lin", eaddc(emul(e, -1), m)))
        return a
    def udivrem(self, st, op, a, c):
        w = a.w
        if c & (c - 1) == 0:
            k = c.bit_length() - 1
            if op == "udiv": return self.shift(st, "lshr", a, k)
            return self.lowpart(st, a, k)
        e = st.mathu(a)
        q = edivs(e, c)
        if q is not None: return e2iv(w, q) if op == "udiv" else cst(w, 0)
        # split divisible part
        dv = {x: k for x, k in e[0] if k % c == 0}; rs = {x: k for x, k in e[0] if k % c}
        rest = (tuple(sorted(rs.items())), e[1] % c); div = (tuple(sorted((x, k // c) for x, k in dv.items())), e[1] // c)
        lo, hi = con_interval(rest)
        if 0 <= lo and hi < c:
            return e2iv(w, div if op == "udiv" else rest)
        qa, ra = self.divatoms(e, c)
        return ofatom(qa if op == "udiv" else ra, w)
    def divatoms(self, e, c):
        lo, hi = con_interval(e)
        op = any(ATOMS[x].opaque for x, _ in e[0])
        q = mkatom(("udiv", e, c), "(%s)/%d" % (eshow(e), c), 64, max(0, lo // c), hi // c, "udiv", (e, c), op)
        r = mkatom(("urem", e, c), "(%s)%%%d" % (eshow(e), c), 64, 0, c - 1, "urem", (e, c), op)
        if q.id not in AXIOMS:
            d = esub(eadd(ea(q.id, c), ea(r.id)), e)
            for x in (con(d), con(emul(d, -1))):
                for a in {q.id, r.id} | {a for a, _ in e[0]}: AXIOMS.setdefault(a, []).append(x)
        return q, r
    def lowpart(self, st, a, k):
        """a mod 2^k"""
        w = a.w
        if k >= w: return a
        if k == 0: return cst(w, 0)
        if a._l is not None and a._b is None or a._b is None:
            c, t = a.lin(); M = (1 << k) - 1
            rest = {x: y for x, y in t if y & M}
            if not rest: return cst(w, c & M)
            e = (tuple(sorted((x, ctr(y & M, k) if False else ctr(y, w)) for x, y in rest.items())), c & M)
            lo, hi = con_interval(e)
            if 0 <= lo and hi <= M: return e2iv(w, e)
            if len(rest) == 1 and len(t) == 1 and t[0][1] & (t[0][1] - 1) == 0 and c == 0 and ATOMS[t[0][0]].lo >= 0:
                return ofbits(a.bits()[:k] + (ZERO,) * (w - k))
            if any(ATOMS[x].kind == "sym" and ATOMS[x].w > 32 for x in rest):
                if st.entails(e) and st.entails(eaddc(emul(e, -1), M)): return e2iv(w, e)
                cv = None
                q, r = self.divatoms(self.posrep(st, e, 1 << k), 1 << k)
                return ofatom(r, w)
        return ofbits(a.bits()[:k] + (ZERO,) * (w - k))
    def posrep(self, st, e, m):
        """expression congruent to e mod m that is provably non negative"""
        d = {x: (y % m) for x, y in e[0]}
        return (tuple(sorted((x, y) for x, y in d.items() if y)), e[1] % m)
    def bitop(self, st, op, a, b):
        w = a.w
        ca, cb = a.const(), b.const()
        if ca is not None and cb is None: a, b, ca, cb = b, a, cb, ca
        full = (1 << w) - 1
        if ca is not None and cb is not None:
            return cst(w, ca & cb if op == "and" else ca | cb if op == "or" else ca ^ cb)
        if cb is not None:
            if op == "and":
                if cb == 0: return b
                if cb == full: return a
                if a._b is None and not (w == 64 and self.isdata(a)):
                    if cb & (cb + 1) == 0: return self.lowpart(st, a, cb.bit_length())
                    inv = full ^ cb
                    if inv & (inv + 1) == 0: return ivsub(a, self.lowpart(st, a, inv.bit_length()))
            elif op == "or":
                if cb == 0: return a
                if cb == full: return b
            else:
                if cb == 0: return a
                if cb == full:
                    r = ivsub(cst(w, full), a) if a._b is None and not self.isdata(a) else ofbits(pnot(p) for p in a.bits())
                    return r
        if op == "or" and a._b is None and b._b is None:
            # disjoint ranges -> addition
            for x, y in ((a, b), (b, a)):
                cx, tx = x.lin()
                tz = min([ (k & -k).bit_length() - 1 for _, k in tx] + ([(cx & -cx).bit_length() - 1] if cx else []) or [w])
                cy, ty = y.lin(); ey = (tuple((q, ctr(k, w)) for q, k in ty), cy)
                lo, hi = con_interval(ey)
                if lo >= 0 and hi < (1 << tz): return ivadd(a, b)
        A, B = a.bits(), b.bits()
        if op == "and": r = [pand(x, y) for x, y in zip(A, B)]
        elif op == "or": r = [por(x, y) for x, y in zip(A, B)]
        else: r = [x ^ y for x, y in zip(A, B)]
        return ofbits(r)
    def shift(self, st, op, a, c):
        w = a.w
        if c == 0: return a
        if op == "shl":
            if a._b is not None: return ofbits((ZERO,) * c + tuple(a._b[:w - c]))
            return ivmulc(a, 1 << c)
        if a._b is not None:
            return ofbits(tuple(a._b[c:]) + ((a._b[-1] if op == "ashr" else ZERO),) * c)
        cc, t = a.lin()
        if not t:
            return cst(w, (ctr(cc, w) if op == "ashr" else cc) >> c)
        m = 1 << c
        if len(t) == 1 and cc == 0 and t[0][1] & (t[0][1] - 1) == 0 and ATOMS[t[0][0]].kind not in ("addr",) and not (ATOMS[t[0][0]].kind in ("sym",) and ATOMS[t[0][0]].w > 32 and t[0][1] % m == 0) and ATOMS[t[0][0]].lo >= 0:
            b = a.bits()
            return ofbits(tuple(b[c:]) + ((b[-1] if op == "ashr" else ZERO),) * c)
        if all(ATOMS[x].kind in ("bits", "linw", "fn") or ATOMS[x].w <= 32 and ATOMS[x].kind in ("sym", "elem") for x, _ in t):
            b = a.bits()
            if not any(VARS[v][0] == "bit" and ATOMS[VARS[v][1]].kind == "linw" for p in b for v in pvars(p)):
                return ofbits(tuple(b[c:]) + ((b[-1] if op == "ashr" else ZERO),) * c)
        e = st.mathu(a, op == "ashr")
        q = edivs(e, m)
        if q is not None: return e2iv(w, q)
        dv = {x: k for x, k in e[0] if k % m == 0}; rs = {x: k for x, k in e[0] if k % m}
        rest = (tuple(sorted(rs.items())), e[1] % m); div = (tuple(sorted((x, k // m) for x, k in dv.items())), e[1] // m)
        lo, hi = con_interval(rest)
        if (0 <= lo or st.entails(rest)) and (hi < m or st.entails(eaddc(emul(rest, -1), m - 1))): return e2iv(w, div)
        if op == "lshr":
            q, r = self.divatoms(e, m)
            return ofatom(q, w)
        r = st.decide_ge(e)
        if r is None: raise Split(("lin", e))
        if r:
            q, _ = self.divatoms(e, m); return ofatom(q, w)
        raise Undecided("arithmetic shift of a negative symbolic value")
    def zext(self, st, a, w):
        if isinstance(a, tuple): return tuple(self.zext(st, x, w) for x in a)
        if isinstance(a, Undef): return a
        if a._b is not None:
            b = tuple(a._b) + (ZERO,) * (w - a.w)
            if a._l is not None and 2 <= len(a._l[1]) <= 4 and w <= 64:     # a difference of data whose sign is known keeps its linear form too
                e = self.window(st, a)
                if e is not None: return IV(w, e2iv(w, e).lin(), b)
            return ofbits(b)
        return e2iv(w, st.mathu(a))
    def window(self, st, v, sg=False):
        """the mathematical value of v, if the facts settle it"""
        c0, ts = v.lin(); w = v.w; ids = {a for a, _ in ts}; M = 1 << w
        if not any(a in ids for f in st.facts for a, _ in f[0]): return None
        e = (tuple((a, ctr(k, w)) for a, k in ts), ctr(c0, w)); lo = -M // 2 if sg else 0
        for k in (0, M, -M):
            t = eaddc(e, k)
            if st.entails(eaddc(t, -lo)) and st.entails(eaddc(emul(t, -1), M - 1 + lo)): return t
        return None
    def sext(self, st, a, w):
        if isinstance(a, Undef): return a
        if isinstance(a, tuple): return tuple(self.sext(st, x, w) for x in a)
        if a._b is None and a.const() is not None: return cst(w, ctr(a.const(), a.w))
        if a._b is not None or a.w <= 32 and all(ATOMS[x].w <= a.w for x, _ in a.lin()[1]) and len(a.lin()[1]) == 1:
            b = a.bits()
            if not (a._l is not None and any(ATOMS[x].w > 32 for x, _ in a._l[1])):
                return ofbits(tuple(b) + (b[-1],) * (w - a.w))
        return e2iv(w, st.mathu(a, True))
    def isdata(self, v):
        """value best compared bitwise"""
        if v._b is not None and v.const() is None: return True
        for a, k in v.lin()[1]:
            A = ATOMS[a]
            if A.kind in ("bits", "elem", "linw", "fn", "fbits"): return True
            if A.kind == "sym" and A.w <= 32 and A.hi - A.lo >= (1 << A.w) - 1: return True
        return False
    def icmp(self, st, pred, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.pcmp(st, pred, a, b)
        if isinstance(a, tuple): return tuple(self.icmp(st, pred, x, y) for x, y in zip(a, b))
        w = a.w
        if w == 64 and pred[0] != "s" and a._l is not None and b._l is not None:
            # addresses of different objects compare as the pointers do
            X, Y = [x for x, k in a._l[1] if ATOMS[x].kind == "addr"], [x for x, k in b._l[1] if ATOMS[x].kind == "addr"]
            if len(X) == len(Y) == 1 and X != Y and (X[0], 16) in a._l[1] and (Y[0], 16) in b._l[1]: return self.pcmp(st, pred, a, b)
        if pred in ("eq", "ne"):
            if w > 1 and (a._b is not None and a.const() is None and (b._b is not None or b.const() is not None) or b._b is not None and a.const() is not None):
                # compare widened values at their own width
                X, Y = a.bits(), b.bits(); k = w
                while k > 1 and (X[k-1] == X[k-2] and Y[k-1] == Y[k-2] or X[k-1] == Y[k-1]): k -= 1
                if k < w: return self.icmp(st, pred, IV(k, bits2lin(k, X[:k]), X[:k]), IV(k, bits2lin(k, Y[:k]), Y[:k]))
            if a.lin() == b.lin(): p = ONE
            elif ivsub(a, b).const() is not None: p = ZERO
            elif w == 1: p = pnot(a.bits()[0] ^ b.bits()[0])
            elif self.nonzero(a, b) or self.nonzero(b, a): p = ZERO
            elif FOLDDEF and self.foldsame(st, a, b): p = ONE
            elif self.isdata(a) or self.isdata(b):
                self.elemalias(st, a, b)
                if a.lin() == b.lin() or self.elemsame(st, a, b): p = ONE
                else:
                    p = st.red(eqv_poly(a, b))
                    if p not in (ONE, ZERO) and w <= 64:
                        ds = [st.red(x ^ y) for x, y in zip(a.bits(), b.bits())]
                        if ONE in ds: p = ZERO
                        elif not any(ds): p = ONE
                        elif sum(1 for d in ds if d) == 1: p = pnot(next(d for d in ds if d))
            else:
                ea_, eb = st.mathu(a), st.mathu(b)
                p = st.red(eq_poly(esub(ea_, eb)))
            return b1(p if pred == "eq" else pnot(p))
        if w > 1 and (a._b is not None and a.const() is None and (b._b is not None or b.const() is not None) or b._b is not None and a.const() is not None):
            # sign extension keeps both orders
            X, Y = a.bits(), b.bits(); k = w
            while k > 1 and X[k-1] == X[k-2] and Y[k-1] == Y[k-2] and X[k-1] != ZERO: k -= 1
            if k < w and k > 1: return self.icmp(st, pred, IV(k, bits2lin(k, X[:k]), X[:k]), IV(k, bits2lin(k, Y[:k]), Y[:k]))
        sg = pred[0] == "s"; k = pred[1:]
        if k in ("gt", "le"):   # a>b == b<a ; a<=b == !(b<a)
            x, y = b, a; neg = k == "le"
        else:                   # a<b ; a>=b == !(a<b)
            x, y = a, b; neg = k == "ge"
        # x<y
        cx, cy = x.const(), y.const()
        if cx is None and cy is None and (x._b is not None or self.isdata(x)) and (y._b is not None or self.isdata(y)):
            # the highest bit in which the two differ for certain decides
            X, Y = list(x.bits()), list(y.bits())
            if sg: X[-1], Y[-1] = Y[-1], X[-1]
            i = w - 1
            while i >= 0:
                d = st.red(X[i] ^ Y[i])
                if d != ZERO: break
                i -= 1
            if i < 0: return b1(ONE if neg else ZERO)
            if d == ONE:
                p = st.red(Y[i]); return b1(pnot(p) if neg else p)
        if sg and (cx is None) != (cy is None):     # sign-extended data: its range may settle it
            v = x if cy is not None else y
            if v._b is not None:
                k = w
                while k > 1 and v._b[k-1] == v._b[k-2]: k -= 1
                L, H = -(1 << (k - 1)), (1 << (k - 1)) - 1
                if v._b[k-1] == ZERO: L = 0
                r = None
                if v is x: r = True if H < ctr(cy, w) else False if L >= ctr(cy, w) else None
                else: r = True if ctr(cx, w) < L else False if ctr(cx, w) >= H else None
                if r is not None: return b1(ONE if r != neg else ZERO)
        r0 = None; v = x if cy is not None else y if cx is not None else None
        if v is not None and v._l is not None and 2 <= len(v._l[1]) <= 4 and self.isdata(v):
            e = self.window(st, v, sg)
            if e is not None: r0 = st.decide_ge(eaddc(emul(e, -1), (ctr(cy, w) if sg else cy) - 1) if v is x else eaddc(e, -(ctr(cx, w) if sg else cx) - 1))
        if r0 is not None: p = ONE if r0 else ZERO
        elif not sg and cy == 1 and self.isdata(x): p = eqv_poly(x, y if False else cst(w, 0))
        elif not sg and cx == 0 and self.isdata(y): p = pnot(eqv_poly(y, cst(w, 0)))
        elif sg and cy == 0 and (x._b is not None or self.isdata(x)): p = x.bits()[-1]
        elif sg and cx == ((1 << w) - 1) and (y._b is not None or self.isdata(y)): p = pnot(y.bits()[-1])
        elif sg and cx == 0 and self.isdata(y):
            p = pand(pnot(y.bits()[-1]), pnot(eqv_poly(y, cst(w, 0))))
        elif not sg and cy is not None and cy & (cy - 1) == 0 and self.isdata(x) and cy:
            hi = x.bits()[cy.bit_length() - 1:]
            p = self.allzero([st.red(b) for b in hi])
        elif not sg and cx is not None and (cx + 1) & cx == 0 and self.isdata(y):
            p = pnot(self.allzero([st.red(b) for b in y.bits()[cx.bit_length():]]))
        elif (self.isdata(x) and self.isdata(y) or cx is not None and self.isdata(y) or cy is not None and self.isdata(x)) and self.bitlt(st, x, y, sg) is not None:
            p = self.bitlt(st, x, y, sg)
        else:
            ex, ey = st.mathu(x, sg), st.mathu(y, sg)
            p = ge_poly(eaddc(esub(ey, ex), -1))
        p = st.red(p)
        return b1(pnot(p) if neg else p)
    def nonzero(self, a, b):
        if b.const() != 0: return False
        c, t = a.lin()
        return c == 0 and len(t) == 1 and t[0][1] == 1 and ATOMS[t[0][0]].lo > 0
    def foldsame(self, st, a, b):
        """equal once iterates of one recurrence at provably equal indices are identified"""
        def folds(v):
            s = set(); val_atoms(v, s); r = set()
            for x in s:
                A = ATOMS[x]
                if A.kind == "elem" and A.d[0] in FOLDDEF: r.add(x)
                elif A.kind == "bits":
                    t = set()
                    for p in A.d:
                        for y in pvars(p):
                            if VARS[y][0] == "bit": t.add(VARS[y][1])
                    r |= {y for y in t if ATOMS[y].kind == "elem" and ATOMS[y].d[0] in FOLDDEF}
            return r
        fa, fb = folds(a), folds(b)
        if not fa and not fb: return False
        def zero(v, fs):       # the iterate at index 0 is the initial value
            for x in sorted(fs):
                if st.decide_eq(ATOMS[x].d[1]) is True:
                    x0 = FOLDDEF[ATOMS[x].d[0]][1]
                    if x0.const() is not None: v = subst_val(v, {x: ec(x0.const())})
            return v
        a, b = zero(a, fa), zero(b, fb); m = {}
        def canon(x):
            nm, e = ATOMS[x].d; k = 0
            while nm in FOLDSHIFT and k < 8: nm, d = FOLDSHIFT[nm]; e = eaddc(e, d); k += 1
            return nm, e
        for y in sorted(fb):
            for x in sorted(fa):
                if x == y: continue
                (n1, e1), (n2, e2) = canon(x), canon(y)
                if n1 == n2 and st.decide_eq(esub(e1, e2)) is True: m[y] = ea(x)
        if subst_val(b, m).lin() == a.lin(): return True
        def single(v):
            c, t = v.lin()
            return t[0][0] if not c and len(t) == 1 and t[0][1] == 1 and ATOMS[t[0][0]].kind == "elem" and ATOMS[t[0][0]].d[0] in FOLDDEF else None
        for u, v, fs in ((a, b, fb), (b, a, fa)):     # one of them one step further
            x = single(u)
            if x is None or single(v) is not None: continue
            n1, e1 = canon(x)
            for y in sorted(fs):
                nm, e = ATOMS[y].d; F, x0, acc, N = FOLDDEF[nm]; n2, e2 = canon(y)
                if n1 == n2 and st.decide_eq(esub(eaddc(e2, 1), e1)) is True and subst_val(F, {acc: ea(y), N: e}).lin() == v.lin(): return True
            for k in range(4):
                if st.decide_eq(eaddc(e1, -k)) is not True: continue
                F, z, acc, N = FOLDDEF[n1]
                for i in range(k): z = foldapply(F, acc, N, z, i)
                if z is not None and z.lin() == v.lin(): return True
        return False
    def elempair(self, a, b):
        (ca, ta), (cb, tb) = a.lin(), b.lin()
        if ca == cb and len(ta) == len(tb) == 1 and ta[0][1] == tb[0][1]:
            A, B = ATOMS[ta[0][0]], ATOMS[tb[0][0]]
            if A.kind == B.kind == "elem" and A.d[0] == B.d[0] and A.w == B.w: return esub(A.d[1], B.d[1])
        return None
    def elemsame(self, st, a, b):
        d = self.elempair(a, b)
        return d is not None and st.decide_eq(d) is True
    def elemalias(self, st, a, b):
        """elements of one symbolic sequence: refine on equality of the indices"""
        d = self.elempair(a, b)
        if d is None or st.decide_eq(d) is not None: return
        for e in (d, emul(d, -1)):
            if st.decide_ge(e) is None: raise Split(("lin", e))
    def bitlt(self, st, x, y, sg):
        """x<y on bit vectors by a comparator, if cheap"""
        X = [st.red(p) for p in x.bits()]; Y = [st.red(p) for p in y.bits()]
        if sg: X[-1], Y[-1] = Y[-1], X[-1]
        nv = len({v for p in X + Y for v in pvars(p)})
        if nv > 10: return None
        lt = ZERO
        for p, q in zip(X, Y):     # from low to high: lt' = (!p&q) | (p==q)&lt
            d = p ^ q
            lt = pite(d, q, lt)
        return lt
    def allzero(self, bs):
        nz = [b for b in bs if b != ZERO]
        if any(b == ONE for b in nz): return ZERO
        if not nz: return ONE
        return eqv_poly(ofbits(tuple(nz)), cst(len(nz), 0)) if len(nz) > 1 else pnot(nz[0])
    def pcmp(self, st, pred, a, b):
        if isinstance(a, IV): a = self.int2ptr(st, a)
        if isinstance(b, IV): b = self.int2ptr(st, b)
        if a.o == b.o:
            d = esub(a.e, b.e)
            if pred == "eq": p = eq_poly(d)
            elif pred == "ne": p = pnot(eq_poly(d))
            elif pred[1:] == "lt": p = ge_poly(eaddc(emul(d, -1), -1))
            elif pred[1:] == "le": p = ge_poly(emul(d, -1))
            elif pred[1:] == "gt": p = ge_poly(eaddc(d, -1))
            else: p = ge_poly(d)
            return b1(st.red(p))
        if pred == "eq": return b1(ZERO)
        if pred == "ne": return b1(ONE)
        if a.o is None and a.e == ec(0): return b1(ONE if pred[1:] in ("lt", "le") else ZERO)
        if b.o is None and b.e == ec(0): return b1(ZERO if pred[1:] in ("lt", "le") else ONE)
        # unrelated objects: the order is unknown but consistent
        x = mkatom(("ordobj", min(a.o or "", b.o or ""), max(a.o or "", b.o or "")), "order(%s,%s)" % (a.o, b.o), 1, 0, 1)
        p = abits(x)[0]
        less = p if (a.o or "") < (b.o or "") else pnot(p)
        return b1(less if pred[1:] in ("lt", "le") else pnot(less))
    def fcmp(self, st, pred, a, b):
        if isinstance(a, tuple): return tuple(self.fcmp(st, pred, x, y) for x, y in zip(a, b))
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        na, oa = self.ford(a, st); nb, ob = self.ford(b, st)
        uno = por(na, nb)
        if pred == "uno": return b1(st.red(uno))
        if pred == "ord": return b1(st.red(pnot(uno)))
        k = pred[1:]; d = esub(oa, ob)
        p = {"eq": lambda: eq_poly(d), "ne": lambda: pnot(eq_poly(d)), "lt": lambda: ge_poly(eaddc(emul(d, -1), -1)), "le": lambda: ge_poly(emul(d, -1)),
             "gt": lambda: ge_poly(eaddc(d, -1)), "ge": lambda: ge_poly(d)}[k]()
        p = pand(pnot(uno), p) if pred[0] == "o" else por(uno, p)
        return b1(st.red(p))
    def ford(self, f, st=None):
        """(isnan poly, order expression): floats are only ever compared, so a total preorder is exact"""
        t = f.t
        if t[0] == "s":
            nan = mkatom(("nan", t[1]), "isnan(%s)" % ATOMS[t[1]].name, 1, 0, 1)
            return abits(nan)[0], ea(t[1])
        if t[0] == "c":
            if t[1] != t[1]: return ONE, ec(0)
            if t[1] == math.inf: return ZERO, ec(999)
            if t[1] == -math.inf: return ZERO, ec(1)
            if t[1] == 0: return ZERO, ec(500)
            if t[1] < 0: return ZERO, eaddc(emul(self.ford(Flt(("c", -t[1]), f.w))[1], -1), 1000)
            a = mkatom(("fconst", t[1]), "f%g" % t[1], 64, 2, 998, "ford")
            if a.id not in AXIOMS:
                AXIOMS[a.id] = [con(eaddc(ea(a.id), -501))]
                for v, b in FCONSTS:    # constants are in order
                    AXIOMS[a.id].append(con(eaddc(esub(ea(a.id), ea(b)) if t[1] > v else esub(ea(b), ea(a.id)), -1)))
                FCONSTS.append((t[1], a.id))
            return ZERO, ea(a.id)
        if t[0] == "fpext" and len(t) == 2: return self.ford(Flt(t[1], 32), st)     # exact: the order is kept
        if t[0] == "fneg":      # orders are symmetric around zero
            n, o = self.ford(Flt(t[1], f.w), st); return n, eaddc(emul(o, -1), 1000)
        if t[0] == "fabs" and st is not None:
            n, o = self.ford(Flt(t[1], f.w), st); s = st.decide_ge(eaddc(o, -500))
            if s is None: raise Split(("lin", eaddc(o, -500)))
            return n, o if s else eaddc(emul(o, -1), 1000)
        a = mkatom(("fterm", t, f.w), "fterm%d" % len(ATOMS), 64, 0, 1000, "ford")
        nan = mkatom(("nan", a.id), "isnan(%s)" % a.name, 1, 0, 1)
        if t[0] == "fabs": raise Undecided("comparison of %s" % t[0])
        a.opaque = True
        return abits(nan)[0], ea(a.id)
    def fop(self, op, args, w):
        if isinstance(args[0], tuple): return tuple(self.fop(op, list(x), w) for x in zip(*args))
        if any(isinstance(x, Undef) for x in args): return UNDEF
        if op == "fneg" and args[0].t[0] == "fneg": return Flt(args[0].t[1], w)
        ts = [x.t for x in args]
        if all(t[0] == "c" for t in ts) and w in (32, 64):
            x = [t[1] for t in ts]
            try:
                r = {"fneg": lambda: -x[0], "fadd": lambda: x[0] + x[1], "fsub": lambda: x[0] - x[1], "fmul": lambda: x[0] * x[1], "fdiv": lambda: x[0] / x[1], "frem": lambda: math.fmod(x[0], x[1])}[op]()
                return Flt(("c", fround(r, w)), w)          # double rounding of one operation on binary32 is exact
            except (OverflowError, ZeroDivisionError, ValueError): pass
        if op in ("fadd", "fmul"): ts = sorted(ts, key=repr)
        return Flt((op,) + tuple(ts), w)
    def step(self, st, fr, I):
        """None: fallthrough (pc advanced); list: control transfer"""
        op = I.op; env = fr.env
        ops = I.ops
        if op == "load":
            p = self.ev(st, fr, ops[0]); env[I.id] = self.load(st, p, I.ty, I)
        elif op == "store":
            v = self.ev(st, fr, ops[0]); p = self.ev(st, fr, ops[1])
            self.store(st, p, v, I.x["sty"], I)
        elif op == "gep":
            b = self.ev(st, fr, ops[0])
            if isinstance(b, Undef): env[I.id] = b
            else:
                e = eaddc(b.e, I.x["off"])
                for sc, o in I.x["var"]:
                    v = self.ev(st, fr, o)
                    if isinstance(v, Undef): raise Undecided("undef index")
                    e = eadd(e, emul(self.gidx(st, v), sc))
                env[I.id] = Ptr(b.o, e)
        elif op in ("add","sub","mul","and","or","xor","shl","lshr","ashr","udiv","sdiv","urem","srem"):
            env[I.id] = self.binop(st, op, self.ev(st, fr, ops[0]), self.ev(st, fr, ops[1]), I)
        elif op == "icmp":
            env[I.id] = self.icmp(st, I.x["pred"], self.ev(st, fr, ops[0]), self.ev(st, fr, ops[1]))
        elif op == "fcmp":
            env[I.id] = self.fcmp(st, I.x["pred"], self.ev(st, fr, ops[0]), self.ev(st, fr, ops[1]))
        elif op == "zext": env[I.id] = self.zext(st, self.ev(st, fr, ops[0]), I.ty.w or I.ty.elem.w)
        elif op == "sext": env[I.id] = self.sext(st, self.ev(st, fr, ops[0]), I.ty.w or I.ty.elem.w)
        elif op == "trunc":
            v = self.ev(st, fr, ops[0])
            env[I.id] = v if isinstance(v, Undef) else tuple(trunc(x, I.ty.elem.w) for x in v) if isinstance(v, tuple) else trunc(v, I.ty.w)
        elif op == "br":
            if not ops:
                self.goto(st, I.x["succ"][0]); return [st]
            return self.branch(st, fr, self.ev(st, fr, ops[0]), I.x["succ"])
        elif op == "select":
            c = self.ev(st, fr, ops[0]); a = self.ev(st, fr, ops[1]); b = self.ev(st, fr, ops[2])
            env[I.id] = self.select(st, c, a, b)
        elif op == "phi": raise Undecided("phi")
        elif op == "alloca":
            n = self.ev(st, fr, ops[0]); t = I.x["aty"]; nc = n.const()
            if fr.fn.loops and any(fr.blk in b for b in fr.fn.loops.values()) and env.get(I.id) is not None and nc is None: raise Undecided("alloca in a loop")
            ne = ec(nc) if nc is not None else st.mathu(n)
            o = self.newobj(st, "stk", emul(ne, t.size), fr.fn.dem[:60] + ":%" + str(I.id), t if nc is not None else None)
            fr.allocas = fr.allocas + (o.id,)
            if nc is None:
                g = 0
                for _, k in o.size[0]: g = gcd(g, k)
                if g and edivs(o.size, g) is not None: o.regs = [Region(0, g, edivs(o.size, g), [(ec(0), edivs(o.size, g), None)])]
            env[I.id] = Ptr(o.id)
        elif op in ("call", "invoke"): return self.call(st, fr, I)
        elif op == "ret":
            v = self.ev(st, fr, ops[0]) if ops else None
            return self.ret(st, v)
        elif op == "switch":
            v = self.ev(st, fr, ops[0]); 
            if isinstance(v, Undef): raise Undecided("switch on undef")
            c = st.cval(v)
            if c is not None:
                for k, b in I.x["cases"]:
                    if k == c: self.goto(st, b); return [st]
                self.goto(st, I.x["default"]); return [st]
            out = []; rest = st
            for k, b in I.x["cases"]:
                p = self.icmp(rest, "eq", v, cst(v.w, k)).bits()[0]
                t = rest.clone()
                for u in self.assume(t, p, True):
                    u2 = u
                    self.goto(u2, b); out.append(u2)
                r = self.assume(rest, p, False)
                if not r: return out
                if len(r) > 1: raise Undecided("switch")
                rest = r[0]
            self.goto(rest, I.x["default"]); out.append(rest)
            return out
        elif op == "extractvalue":
            v = self.ev(st, fr, ops[0])
            for i in I.x["idx"]: v = v[i] if not isinstance(v, Undef) else UNDEF
            env[I.id] = v
        elif op == "insertvalue":
            v = self.ev(st, fr, ops[0]); x = self.ev(st, fr, ops[1])
            env[I.id] = self.insv(v, I.x["idx"], x, I.ty)
        elif op == "ptrtoint":
            v = self.ev(st, fr, ops[0]); env[I.id] = v if isinstance(v, Undef) else self.ptr2int(st, v, I.ty.w)
        elif op == "inttoptr":
            v = self.ev(st, fr, ops[0]); env[I.id] = v if isinstance(v, Undef) else self.int2ptr(st, v)
        elif op == "bitcast":
            v = self.ev(st, fr, ops[0])
            if I.ty.k in ("int", "ptr", "float") and not isinstance(v, tuple): env[I.id] = self.conv(st, v, I.ty)
            elif isinstance(v, tuple) and I.ty.k == "int":
                bs = []
                for x in v: bs += list(self.asint(x, I.ty.w // len(v)).bits())
                env[I.id] = ofbits(bs)
            else: raise Undecided("vector bitcast")
        elif op == "landingpad":
            ci = st.exc
            if isinstance(ci, tuple): p, sel = ci[0], cst(32, ci[1])
            else: p, sel = ci, cst(32, 1)
            env[I.id] = (p, sel)
        elif op == "resume":
            v = self.ev(st, fr, ops[0])
            return self.unwind(st, v[0])
        elif op == "unreachable":
            raise Violation("ub", "control flow reaches a point declared unreachable")
        elif op in ("fadd","fsub","fmul","fdiv","frem"):
            env[I.id] = self.fop(op, [self.ev(st, fr, o) for o in ops], I.ty.w)
        elif op == "fneg": env[I.id] = self.fop(op, [self.ev(st, fr, ops[0])], I.ty.w)
        elif op in ("fpext", "fptrunc", "uitofp", "sitofp"):
            v = self.ev(st, fr, ops[0])
            if isinstance(v, IV):
                c = st.cval(v)
                if c is not None: 
                    x = ctr(c, v.w) if op == "sitofp" else c
                    if float(x) != x and I.ty.w != 64: raise Undecided("conversion rounded twice")
                    env[I.id] = Flt(("c", fround(float(x), I.ty.w)), I.ty.w)
                else: env[I.id] = Flt((op, v.lin(), v.w), I.ty.w)
            elif isinstance(v, Undef): env[I.id] = v
            elif v.t[0] == "c" and op in ("fpext", "fptrunc") and I.ty.w in (32, 64): env[I.id] = Flt(("c", fround(v.t[1], I.ty.w)), I.ty.w)
            elif v.t[0] == "c" and op == "fpext": env[I.id] = Flt(v.t, I.ty.w)
            else: env[I.id] = Flt((op, v.t), I.ty.w)
        elif op in ("fptosi", "fptoui"):
            v = self.ev(st, fr, ops[0])
            if isinstance(v, Undef): env[I.id] = v
            elif v.t[0] == "c":
                x = v.t[1]; lo, hi = (-(1 << I.ty.w - 1), (1 << I.ty.w - 1) - 1) if op == "fptosi" else (0, (1 << I.ty.w) - 1)
                if x != x or x in (math.inf, -math.inf) or not lo <= int(x) <= hi: raise Violation("ub", "conversion of a floating-point value out of the range of the integer type")
                env[I.id] = cst(I.ty.w, int(x))
            else: env[I.id] = ofatom(mkatom(("fn", op, v.t, I.ty.w), "%s%d" % (op, len(ATOMS)), I.ty.w, 0, None, "fnf", (op, v.t), True))
        elif op == "freeze":
            v = self.ev(st, fr, ops[0]); env[I.id] = opaque("freeze", I.ty.w) if isinstance(v, Undef) and I.ty.k == "int" else v
        elif op == "fence": pass
        elif op == "atomicrmw":
            p = self.ev(st, fr, ops[0]); v = self.ev(st, fr, ops[1]); old = self.load(st, p, I.ty, I)
            k = I.x["rmw"]
            new = v if k == 0 else self.binop(st, {1:"add",2:"sub",3:"and",5:"or",6:"xor"}[k], old, v, I)
            self.store(st, p, new, I.ty, I); env[I.id] = old
        elif op == "cmpxchg":
            p = self.ev(st, fr, ops[0]); c = self.ev(st, fr, ops[1]); nv = self.ev(st, fr, ops[2]); ty = I.ty.elems[0][1]
            old = self.load(st, p, ty, I); eq = st.red(self.icmp(st, "eq", old, c).bits()[0])
            if eq not in (ZERO, ONE): raise Split(("poly", eq))
            if eq == ONE: self.store(st, p, nv, ty, I)
            env[I.id] = (old, b1(eq))
        elif op == "extractelement":
            v = self.ev(st, fr, ops[0]); i = self.ev(st, fr, ops[1]).const(); env[I.id] = v[i]
        elif op == "insertelement":
            v = self.ev(st, fr, ops[0]); i = self.ev(st, fr, ops[2]).const(); x = self.ev(st, fr, ops[1])
            if isinstance(v, Undef): v = (UNDEF,) * I.ty.n
            env[I.id] = v[:i] + (x,) + v[i+1:]
        elif op == "shufflevector":
            a = self.ev(st, fr, ops[0]); b = self.ev(st, fr, ops[1])
            n = len(a) if not isinstance(a, Undef) else len(b)
            a = (UNDEF,) * n if isinstance(a, Undef) else a; b = (UNDEF,) * n if isinstance(b, Undef) else b
            env[I.id] = tuple((a + b)[m] if m >= 0 else UNDEF for m in I.x["mask"])
        else: raise Undecided("instruction " + op)
        fr.pc += 1
        return None
    def gidx(self, st, v):
        c, ts = v.lin(); w = v.w
        if not ts: return ec(ctr(c, w))
        return st.mathu(v, True)
    def insv(self, v, idx, x, ty):
        if isinstance(v, Undef): v = (UNDEF,) * (len(ty.elems) if ty.k == "struct" else ty.n)
        i = idx[0]
        if len(idx) > 1:
            sub = ty.elems[i][1] if ty.k == "struct" else ty.elem
            x = self.insv(v[i], idx[1:], x, sub)
        return v[:i] + (x,) + v[i+1:]
    def branch(self, st, fr, c, succ):
        if isinstance(c, Undef): raise Violation("uninit", "branch depends on an uninitialised value")
        p = st.red(c.bits()[0])
        if p == ONE: self.goto(st, succ[0]); return [st]
        if p == ZERO: self.goto(st, succ[1]); return [st]
        out = []
        for b, val in ((0, True), (1, False)):
            for t in self.assume(st.clone(), p, val):
                self.goto(t, succ[b]); out.append(t)
        return out
    def select(self, st, c, a, b):
        if isinstance(c, tuple): return tuple(self.select(st, x, y, z) for x, y, z in zip(c, a, b))
        if isinstance(c, Undef): return UNDEF
        p = st.red(c.bits()[0])
        if p == ONE: return a
        if p == ZERO: return b
        if a == b: return a
        if isinstance(a, IV) and isinstance(b, IV):
            if a.w == 1:
                return b1(pite(p, a.bits()[0], b.bits()[0]))
            if all(VARS[v][0] == "bit" for v in pvars(p)) and len(p) <= 40 and not (self.issize(a) or self.issize(b)):
                A, B = a.bits(), b.bits()
                if sum(len(x) for x in A) + sum(len(x) for x in B) < 400:
                    return ofbits(pite(p, x, y) for x, y in zip(A, B))
        raise Split(("poly", p))
    def issize(self, v):
        return any(ATOMS[a].kind in ("sym",) and ATOMS[a].w > 32 or ATOMS[a].kind in ("addr", "udiv", "urem") for a, _ in v.lin()[1])
    def ret(self, st, v):
        fr = st.fr.pop()
        if not st.fr:
            self.endcheck(st, fr)
            self.ends["return"] = self.ends.get("return", 0) + 1
            self.finish(st); return []
        self.popallocas(st, fr)
        c = st.fr[-1]; I = fr.call
        if v is not None: c.env[I.id] = v
        if I.op == "invoke": self.goto(st, I.x["succ"][0]); return [st]
        c.pc += 1
        return [st]
    def popallocas(self, st, fr):
        for oid in fr.allocas:
            o = st.mem.get(oid)
            if o is None: continue
            self.alivecheck(st, o, "local object storage of %s" % fr.fn.dem[:80])
            del st.mem[oid]; st.own.discard(oid)
    def alivecheck(self, st, o, what):
        for off, (sz, c) in o.cells.items():
            if c is not None and c[0] in ("A", "M"):
                self.report_at(st, "lifetime", "object at offset %s of %s is never destroyed" % (off, what)); return False
        for r in o.regs:
            for lo, hi, c in r.segs:
                if c is not None and c[0] in ("A", "M"):
                    if st.decide_ge(eaddc(esub(hi, lo), -1)) is True or st.decide_ge(esub(lo, hi)) is None and self.feas(st, eaddc(esub(hi, lo), -1)):
                        t = st
                        if st.decide_ge(eaddc(esub(hi, lo), -1)) is None:
                            t = st.clone(); t.add_ge(eaddc(esub(hi, lo), -1))
                        self.report_at(t, "lifetime", "elements [%s, %s) of %s are never destroyed" % (eshow(lo), eshow(hi), what)); return False
        return True
    def feas(self, st, e):
        t = st.clone(); return t.add_ge(e)
    def report_at(self, st, kind, msg):
        if st.fr:
            I = self.cur_inst(st.fr[-1])
        else: I = self.mod.fn(self.entry).blocks[0].insts[0]
        self.report(st, kind, msg, I)
    def endcheck(self, st, fr):
        I = fr.fn.blocks[fr.blk].insts[-1]
        st2 = st
        for oid in fr.allocas:
            o = st.mem.get(oid)
            if o: self.alivecheck(st, o, "local storage of the scenario")
        if self.leakcheck:
            for oid, o in st.mem.items():
                if o.kind == "heap" and o.live:
                    self.report(st, "leak", "memory block %s is never released" % o.name, I)
                if o.kind in ("sto",): self.alivecheck(st, o, "element storage %s" % o.name)
        k = (self.entry, "end", "scenario end"); self.obl.setdefault(k, "ok")
    # ------------------------------------------------------------- exceptions
    def unwind(self, st, exc):
        """propagate: current frame is abandoned"""
        st.exc = exc
        while True:
            fr = st.fr.pop()
            if not st.fr:
                if isinstance(exc, Ptr) and exc.o != "exc": st.fr.append(fr); self.report_at(st, "exception", "an exception of its own leaves a valid use of the library"); st.fr.pop()
                self.endcheck(st, fr)
                self.ends["unwind"] = self.ends.get("unwind", 0) + 1
                self.finish(st); return []
            self.popallocas(st, fr)
            I = fr.call
            if I.op == "invoke":
                self.goto(st, I.x["succ"][1]); return [st]
            if fr.fn.nounwind or I.x["nounwind"]:
                return self.terminate(st, "an exception leaves %s, which must not throw" % fr.fn.dem[:100])
    def terminate(self, st, why):
        if "mayterminate" not in self.entry and st.fr: self.report_at(st, "terminate", why)
        self.ends["terminate"] = self.ends.get("terminate", 0) + 1
        return []
    def throw_here(self, st, fr, I, exc):
        """an exception raised by the callee of I"""
        st.exc = exc
        if I.op == "invoke":
            self.goto(st, I.x["succ"][1]); return [st]
        if I.x["nounwind"]: return self.terminate(st, "throw from a nounwind call")
        # leave this frame
        return self.unwind_from(st, exc)
    def unwind_from(self, st, exc):
        fr = st.fr[-1]
        if fr.fn.nounwind: return self.terminate(st, "an exception leaves %s, which must not throw" % fr.fn.dem[:100])
        return self.unwind(st, exc)
    # ------------------------------------------------------------- calls
    def call(self, st, fr, I):
        cal = I.x["callee"]
        if cal[0] == "meta": 
            fr.pc += 1; return None     # inline asm / debug
        if cal[0] == "g": name = self.mod.alias.get(cal[1], cal[1])
        else:
            p = self.ev(st, fr, cal)
            if isinstance(p, Undef): raise Violation("memory", "call through an uninitialised function pointer")
            if not isinstance(p, Ptr): raise Undecided("indirect call")
            if p.o is None: raise Violation("memory", "call through a null function pointer")
            if not p.o.startswith("f:"): raise Undecided("indirect call")
            name = p.o[2:]
        args = [self.ev(st, fr, o) for o in I.ops]
        dem = self.mod.dem.get(name, name)
        m = self.models.find(name, dem) if self.models else None
        if m is not None:
            r = m(self, st, fr, I, args, name, dem)
            return self.finish_model(st, fr, I, r)
        f = self.mod.fn(name)
        if f.decl: raise Undecided("external function " + dem)
        self.fnseen.add(dem)
        if self.confirming and len(self.trace) < 4000 and f.blocks and f.blocks[0].insts:
            J = next((x for x in f.blocks[0].insts if x.line), None)
            if J is not None and "NazaraUtils/" in (J.file or ""): self.trace.append("%s (%s:%s)" % (dem[:150], J.file.split("/include/")[-1], J.line))
        if len(st.fr) > 90: raise Undecided("call depth")
        n = Frame(); n.fn = f; n.blk = 0; n.prev = -1; n.pc = 0; n.call = I; n.allocas = (); n.stamp = 0
        n.env = {pid: v for (pid, ty), v in zip(f.params, args)}
        st.fr.append(n)
        return [st]
    def finish_model(self, st, fr, I, r):
        """r: None | value | ('multi', [(state, 'ret', value)|(state,'throw',exc)|(state,'dead')]) | ('throw',exc)|('dead',)"""
        if isinstance(r, tuple) and r and isinstance(r[0], str) and r[0] == "multi":
            out = []
            for it in r[1]:
                s = it[0]; f2 = s.fr[-1] if s.fr else None
                if it[1] == "ret":
                    if it[2] is not None: f2.env[I.id] = it[2]
                    if I.op == "invoke": self.goto(s, I.x["succ"][0])
                    else: f2.pc += 1
                    out.append(s)
                elif it[1] == "throw": out += self.throw_here(s, f2, I, it[2])
                elif it[1] == "states": out += it[2]
            return out
        if isinstance(r, tuple) and r and isinstance(r[0], str) and r[0] == "throw": return self.throw_here(st, fr, I, r[1])
        if isinstance(r, tuple) and r and isinstance(r[0], str) and r[0] == "dead": return []
        if isinstance(r, tuple) and r and isinstance(r[0], str) and r[0] == "states": return r[1]
        if isinstance(r, tuple) and r and isinstance(r[0], str) and r[0] == "val": r = r[1]
        if r is not None: fr.env[I.id] = r
        if I.op == "invoke": self.goto(st, I.x["succ"][0]); return [st]
        fr.pc += 1
        return None
    # ------------------------------------------------------------- loops
    def handle_loop(self, st):
        from .loops import handle_loop
        return handle_loop(self, st)

def trunc_any(v, w):
    return v if v.w == w else trunc(v, w)

def foldapply(F, acc, N, x, i):
    if x is None: return None
    c, t = x.lin()
    if t and not (c == 0 and len(t) == 1 and t[0][1] == 1):
        if x._b is None: return None
        at = mkatom(("bits", tuple(x.bits())), "bits{%d}" % len(ATOMS), x.w, 0, None, "bits", tuple(x.bits())); t = ((at.id, 1),); c = 0
    return subst_val(F, {acc: (t, c), N: ec(i)})
class Ev:
    """evaluation of abstract expressions under an assignment of the base atoms"""
    def __init__(self, asg, inner=False): self.asg = asg; self.c = {}; self.vc = {}; self.inner = inner; self._g = None
    def grp(self):
        if self._g is None:
            self._g = {}
            for a, x in self.asg.items():
                A = ATOMS[a]
                if A.kind == "elem": self._g[(A.d[0], A.w, self.e(A.d[1]))] = x
        return self._g
    def fold(self, A):
        F, x0, acc, N = FOLDDEF[A.d[0]]; n = self.e(A.d[1]); x = self.iv(x0)
        if n > 2000 or n < 0: raise KeyError(A.id)
        asg = dict(self.asg)
        for i in range(n):
            asg[acc] = x; asg[N] = i
            e = Ev(asg, True); e._g = self.grp(); x = e.iv(F)
        return x
    def atom(self, a):
        if a in self.asg: return self.asg[a]
        if a in self.c: return self.c[a]
        A = ATOMS[a]
        if A.kind == "bits": r = sum(self.poly(p) << i for i, p in enumerate(A.d))
        elif A.kind == "linw":
            w, l = A.d; r = self.lin(w, l)
        elif A.kind == "elem" and A.d[0] in FOLDDEF: r = self.fold(A)
        elif A.kind == "elem" and a not in self.asg and self.inner:
            k = (A.d[0], A.w, self.e(A.d[1])); g = self.grp()
            r = g[k] if k in g else max(A.lo, hash(k) & ((1 << A.w) - 1))
        elif A.kind == "udiv": r = self.e(A.d[0]) // A.d[1]
        elif A.kind == "urem": r = self.e(A.d[0]) % A.d[1]
        elif A.kind == "fn" and A.d[0] == "mul":
            r = 1
            for v in A.d[1]: r = r * self.iv(v)
            r &= (1 << A.w) - 1
        else: raise KeyError(a)
        self.c[a] = r
        return r
    def lin(self, w, l): return (l[0] + sum(k * self.atom(a) for a, k in l[1])) & ((1 << w) - 1)
    def iv(self, v):
        if v._l is not None: return self.lin(v.w, v._l)
        return sum(self.poly(p) << i for i, p in enumerate(v._b))
    def e(self, e): return e[1] + sum(k * self.atom(a) for a, k in e[0])
    def var(self, v):
        d = VARS[v]
        if d[0] == "bit": return bool((self.atom(d[1]) >> d[2]) & 1)
        if d[0] == "ge": return self.e(d[1]) >= 0
        if d[0] == "eq": return self.e(d[1]) == 0
        r = self.vc.get(v)
        if r is None:
            if d[0] == "and": r = bool(self.poly(frozenset(d[1])) and self.poly(frozenset(d[2])))
            elif d[0] == "eqv": r = self.lin(d[1], d[2]) == self.lin(d[1], d[3])
            else: raise KeyError(v)
            self.vc[v] = r
        return r
    def poly(self, p):
        r = 0
        for m in p:
            t = 1
            while m:
                v = (m & -m).bit_length() - 1; m &= m - 1
                if not self.var(v): t = 0; break
            r ^= t
        return r
