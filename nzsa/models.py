"""Semantics of the functions that have no body in the analysed program: the
driver intrinsics, probe element types, the allocation and exception runtime,
and LLVM intrinsics."""
import re
from .machine import *
from .llvmc import Ty

EXC = Ptr("exc"); EXCLIB = Ptr("exclib")     # injected by a scenario; raised by the library
PTY = Ty(); PTY.k = "ptr"; PTY.size = 8
I64 = Ty(); I64.k = "int"; I64.w = 64; I64.size = 8
I32 = Ty(); I32.k = "int"; I32.w = 32; I32.size = 4
I8 = Ty(); I8.k = "int"; I8.w = 8; I8.size = 1
def cstr(m, st, p):
    if not isinstance(p, Ptr) or p.o is None: return None
    m.ensure(st, p); o = st.mem.get(p.o); r = ""; k = st.ecval(p.e)
    if k is None or o is None: return None
    while True:
        c = o.cells.get(k)
        if c is None: return None
        v = c[1][1].const()
        if v is None: return None
        if not v: return r
        r += chr(v); k += 1
class Models:
    def __init__(self):
        self.cache = {}; self.extra = []
    def find(self, name, dem):
        if name in self.cache: return self.cache[name]
        r = self.lookup(name, dem); self.cache[name] = r
        return r
    def on_terminate(self, m, st, why): 
        return None
    def lookup(self, name, dem):
        for pat, f in self.extra:
            if re.search(pat, dem): return f
        if name in TABLE: return TABLE[name]
        if name.startswith("llvm."):
            for k, f in LLVM.items():
                if name.startswith(k): return f
            return None
        mm = re.match(r"^(Probe\w*)::(.*)$", dem)
        if mm and "<" not in mm.group(1): return probe(mm.group(1), mm.group(2))
        if dem.startswith("std::__throw_"): return lambda m, st, fr, I, a, n, d: ("throw", EXCLIB)
        for k, f in DEM.items():
            if dem.startswith(k): return f
        if name.startswith("nz_any_"): return anyval
        return None

# ------------------------------------------------------------------ intrinsics
def anyval(m, st, fr, I, a, name, dem):
    k = name[7:]; cnt = st.gh.get("any", 0); st.gh["any"] = cnt + 1
    key = (m.entry, name, cnt)
    nm = "%s.%d" % (k, cnt)
    if nm in m.fixed: return cst(I.ty.w, m.fixed[nm])
    if k.startswith("size"): return ofatom(mkatom(key, nm, 64, 0, 1 << 40))
    if k.startswith("small"): return ofatom(mkatom(key, nm, 64, 0, 1 << 20))
    if k == "bool": return b1(abits(mkatom(key, nm, 1, 0, 1))[0])
    if k.startswith(("f32", "f64")):
        at = mkatom(key, nm, 64, 2, 998, "ford"); return Flt(("s", at.id), 32 if k.startswith("f32") else 64)
    if k.startswith(("g32", "g64")):    # infinities included
        at = mkatom(key, nm, 64, 1, 999, "ford"); return Flt(("s", at.id), 32 if k.startswith("g32") else 64)
    w = int(re.match(r"[ui](\d+)", k).group(1))
    return ofbits(abits(mkatom(key, nm, w)))
def pick(m, st, fr, I, a, name, dem):
    """a choice below a constant, each explored on its own with the concrete value"""
    n = st.ecval(st.mathu(a[0]))
    if n is None: raise Undecided("nz_pick of a symbolic bound")
    cnt = st.gh.get("any", 0); st.gh["any"] = cnt + 1; nm = "pick.%d" % cnt
    if nm in m.fixed: return cst(64, m.fixed[nm])
    at = ofatom(mkatom((m.entry, name, cnt), nm, 64, 0, n - 1)); out = []
    for k in range(n):
        for t in m.assume(st.clone(), eq_poly(eaddc(st.mathu(at), -k)), True): out.append((t, "ret", cst(64, k)))
    return ("multi", out)
def assume(m, st, fr, I, a, name, dem):
    v = a[0]
    p = st.red(trunc_any(v, 1).bits()[0]) if isinstance(v, IV) else None
    r = m.assume(st, p, True)
    return ("multi", [(t, "ret", None) for t in r])
def check(m, st, fr, I, a, name, dem):
    msg = cstr(m, st, a[1]) if len(a) > 1 else "check"
    v = a[0]
    if isinstance(v, Undef):
        m.report(st, "property", "%s (value is uninitialised)" % msg, I); return ("dead",)
    p = st.red(trunc_any(v, 1).bits()[0])
    if p == ONE: m.ok("property: " + (msg or ""), I, st); return None
    if p == ZERO:
        m.report(st, "property: " + (msg or ""), msg, I); return ("dead",)
    good = m.assume(st.clone(), p, True); bad = m.assume(st.clone(), p, False)
    n = len(m.viol)
    for b in bad: m.report(b, "property: " + (msg or ""), msg, I)
    if len(m.viol) > n: return ("dead",)
    return ("multi", [(t, "ret", None) for t in good])
def reach(m, st, fr, I, a, name, dem):
    m.report(st, "reach", cstr(m, st, a[0]), I); return ("dead",)
def esz_of(m, st, v):
    return st.cval(v)
def storage(m, st, fr, I, a, name, dem):
    cnt = st.mathu(a[0]); es = st.cval(a[1]); nm = cstr(m, st, a[2]) if len(a) > 2 else "storage"
    o = m.newobj(st, "sto", emul(cnt, es), nm); o.regs = [Region(0, es, cnt, [(ec(0), cnt, None)])]
    return Ptr(o.id)
def seqval(m, nm, k, w):
    """an element of an input sequence when the inputs are fixed to a witness"""
    v = m.fixseq.get((nm, k))
    if v is None: v = (k * 0x9e3779b97f4a7c15 + 0x5bd1e995) >> 3 & (1 << w) - 1 or 1
    return cst(w, v)
def seqsegs(m, st, nm, cnt, w, tag):
    n = st.ecval(cnt) if m.fixseq is not None else None
    if n is None or not 0 < n <= 600: return [(ec(0), cnt, (tag, ofatom(elem_atom(nm, ea(IDX.id), w))))]
    return [(ec(k), ec(k + 1), (tag, seqval(m, nm, k, w))) for k in range(n)]
def elems(m, st, fr, I, a, name, dem):
    cnt = st.mathu(a[0]); es = st.cval(a[1]); nm = cstr(m, st, a[2])
    o = m.newobj(st, "arr", emul(cnt, es), nm)
    o.regs = [Region(0, es, cnt, seqsegs(m, st, nm, cnt, 64, "A"))]
    return Ptr(o.id)
def rawarr(m, st, fr, I, a, name, dem):
    cnt = st.mathu(a[0]); es = st.cval(a[1]); nm = cstr(m, st, a[2])
    o = m.newobj(st, "arr", emul(cnt, es), nm)
    o.regs = [Region(0, es, cnt, seqsegs(m, st, nm, cnt, 8 * es, "R"))]
    return Ptr(o.id)
def cstrarr(m, st, fr, I, a, name, dem):
    """a NUL terminated string of any length: its characters are those of a sequence of non-zero bytes"""
    cnt = st.mathu(a[0]); nm = "s:" + cstr(m, st, a[1])
    o = m.newobj(st, "arr", eaddc(cnt, 1), nm)
    o.regs = [Region(0, 1, eaddc(cnt, 1), seqsegs(m, st, nm, cnt, 8, "R") + [(cnt, eaddc(cnt, 1), ("R", cst(8, 0)))])]
    return Ptr(o.id)
def elemval(m, st, fr, I, a, name, dem):
    nm = cstr(m, st, a[0]); e = st.mathu(a[1]); k = st.ecval(e) if m.fixseq is not None else None
    if k is not None and 0 <= k < 600: return seqval(m, nm, k, I.ty.w)
    return ofatom(elem_atom(nm, e, I.ty.w))
MOVEDTOK = 0x6d6f7665646d6f76
def content(m, st, p, I, what):
    return m.getcontent(st, p, 8, I, what)
def value(m, st, fr, I, a, name, dem):
    c = content(m, st, a[0], I, "inspection")
    if c is None: raise Violation("lifetime", "element expected to be alive is not")
    if c[0] == "M": return cst(64, MOVEDTOK)
    return c[1]
def isalive(m, st, fr, I, a, name, dem):
    c = content(m, st, a[0], I, "inspection")
    return b1(ONE if c is not None and c[0] in ("A", "M") else ZERO)
def isvalid(m, st, fr, I, a, name, dem):
    c = content(m, st, a[0], I, "inspection")
    return b1(ONE if c is not None and c[0] in ("A",) else ZERO)
def event(m, st, fr, I, a, name, dem):
    st.events = st.events + (("ev", tuple(x if not isinstance(x, IV) or x.const() is None else x.const() for x in a)),)
def evcount(m, st, fr, I, a, name, dem):
    k = a[0].const() if a else None
    return cst(64, sum(1 for e in st.events if k is None or e[1][0] == k))
def evarg(m, st, fr, I, a, name, dem):
    i = a[0].const(); j = a[1].const()
    if i >= len(st.events): raise Violation("property", "expected call did not happen")
    v = st.events[i][1][j]
    return cst(64, v) if isinstance(v, int) else m.zext(st, v, 64) if isinstance(v, IV) and v.w < 64 else m.ptr2int(st, v) if isinstance(v, Ptr) else v
def maythrow(m, st, fr, I, a, name, dem):
    t = st.clone()
    return ("multi", [(st, "ret", None), (t, "throw", EXC)])
def isowned(m, st, fr, I, a, name, dem):
    p = a[0]
    return b1(ONE if isinstance(p, Ptr) and p.o in st.mem and st.mem[p.o].live else ZERO)
def contains(m, st, fr, I, a, name, dem):
    """pointer p lies inside the object q points to"""
    return b1(ONE if a[0].o == a[1].o else ZERO)
def bitsum(m, st, fr, I, a, name, dem):
    return ctpop(m, st, fr, I, a, name, dem)
def dump(m, st, fr, I, a, name, dem):
    print("DUMP", cstr(m, st, a[0]), a[1:], [eshow(c) for c in st.facts], st.bmap and len(st.bmap))
    if a[1:] and isinstance(a[1], Ptr) and a[1].o in st.mem:
        o = st.mem[a[1].o]; print("   cells", o.cells); 
        for r in o.regs: print("   region", r.base, r.esz, eshow(r.count), [(eshow(x), eshow(y), c) for x, y, c in r.segs])

# ------------------------------------------------------------------ probes
def probe(cls, rest):
    sz = 8
    def thr(m, st, I, f):
        fn = m.mod.fn(f)
        return not (I.x["nounwind"] or fn.nounwind)
    c = re.escape(cls)
    args = rest[rest.index("(") + 1: rest.rindex(")")] if "(" in rest else ""
    nm = rest[:rest.index("(")] if "(" in rest else rest
    def construct(m, st, I, p, cont):
        old = m.getcontent(st, p, sz, I, "construction")
        if old is not None and old[0] in ("A", "M"): raise Violation("lifetime", "construction over an object that is still alive")
        m.setcontent(st, p, sz, cont, I, "construction")
        m.ok("construct", I, st)
    def source(m, st, I, p, what):
        s = m.getcontent(st, p, sz, I, what)
        if s is None: raise Violation("lifetime", "%s from an object that is not alive" % what)
        return s
    if nm == cls:
        def ctor(m, st, fr, I, a, name, dem):
            out = []
            if args == cls + " const&" or args == cls + "&&":
                s = source(m, st, I, a[1], "construction")
                if thr(m, st, I, name):
                    t = st.clone(); out.append((t, "throw", EXC))
                construct(m, st, I, a[0], s)
                if args.endswith("&&"): m.setcontent(st, a[1], sz, ("M",), I, "move")
            else:
                if thr(m, st, I, name):
                    t = st.clone(); out.append((t, "throw", EXC))
                v = cst(64, 0) if not args else m.zext(st, a[1], 64) if isinstance(a[1], IV) and a[1].w < 64 else a[1]
                construct(m, st, I, a[0], ("A", v))
            return ("multi", [(st, "ret", None)] + out) if out else None
        return ctor
    if nm == "~" + cls:
        def dtor(m, st, fr, I, a, name, dem):
            s = m.getcontent(st, a[0], sz, I, "destruction")
            if s is None: raise Violation("lifetime", "destruction of an object that is not alive")
            m.setcontent(st, a[0], sz, None, I, "destruction"); m.ok("destroy", I, st)
        return dtor
    if nm == "operator=":
        def assign(m, st, fr, I, a, name, dem):
            s = source(m, st, I, a[1], "assignment")
            d = m.getcontent(st, a[0], sz, I, "assignment")
            if d is None: raise Violation("lifetime", "assignment to an object that is not alive")
            out = []
            if thr(m, st, I, name): out.append((st.clone(), "throw", EXC))
            same = m.pcmp(st, "eq", a[0], a[1]).bits()[0]; same = st.red(same)
            if same not in (ZERO, ONE): raise Split(("poly", same))
            if same == ZERO:
                m.setcontent(st, a[0], sz, s, I, "assignment")
                if args.endswith("&&"): m.setcontent(st, a[1], sz, ("M",), I, "move")
            elif args.endswith("&&"): m.setcontent(st, a[0], sz, ("M",), I, "move")
            m.ok("assign", I, st)
            r = a[0]
            return ("multi", [(st, "ret", r)] + out) if out else r
        return assign
    return None

# ------------------------------------------------------------------ runtime
def opnew(m, st, fr, I, a, name, dem):
    n = st.mathu(a[0])
    if "_noalloc" in st.gh: raise Violation("effect", "dynamic memory is allocated")
    o = m.newobj(st, "heap", n, "allocated in %s" % fr.fn.dem[:80])
    g = 0
    for _, k in n[0]: g = gcd(g, k)
    if g > 1 and edivs(n, g) is not None: o.regs = [Region(0, g, edivs(n, g), [(ec(0), edivs(n, g), None)])]  # a symbolic number of elements
    return Ptr(o.id)
def opdel(m, st, fr, I, a, name, dem):
    p = a[0]
    if isinstance(p, Undef): raise Violation("memory", "release of an uninitialised pointer")
    if p.o is None: return None
    if not isinstance(p, Ptr): raise Undecided("release of %r" % (p,))
    if p.o not in st.mem: raise Violation("memory", "memory released twice")
    if p.e != ec(0) or st.mem[p.o].kind != "heap": raise Violation("memory", "release of a pointer that was not allocated")
    if "_frozen" in st.gh: m.frozen(st, st.mem[p.o], I, "release")
    m.alivecheck(st, st.mem[p.o], "memory being released")
    del st.mem[p.o]; st.own.discard(p.o)
    m.ok("release", I, st)
def memcpy(m, st, fr, I, a, name, dem):
    n = st.mathu(a[2])
    if st.decide_eq(n) is True: return ret0(I, a[0])
    copy_range(m, st, a[0], a[1], n, I)
    return ret0(I, a[0])
def ret0(I, v): return v if I.ty.k == "ptr" else None
def memset(m, st, fr, I, a, name, dem):
    n = st.mathu(a[2]); p = a[0]; b = a[1]
    z = st.decide_eq(n)
    if z is None: raise Split(("lin", eaddc(n, -1)))
    if z: return ret0(I, p)
    b8 = b if isinstance(b, Undef) else trunc_any(b, 8)
    o = m.access(st, p, n, I, "memset")
    if "_frozen" in st.gh: m.frozen(st, o, I, "write")
    ri = m.region_for(st, o, p.e, 1) if o.regs else None
    nc = st.ecval(n)
    if ri is None and (nc is None or nc > 4096 or p.e[0]):
        ri = m.mkregion(st, o, p.e, 8 if nc is None and edivs(n, 8) is not None else 1); o = st.mem[p.o]
    w = st.wobj(p.o)
    if ri is None:
        off = p.e[1]
        # merge granularity: 8-byte words when possible
        k = off
        while k < off + nc:
            step = 8 if k % 8 == 0 and k + 8 <= off + nc else 4 if k % 4 == 0 and k + 4 <= off + nc else 1
            m.cellwrite(w, k, step, ("R", ofbits(tuple(b8.bits()) * step)) if b8.const() != 0 else ("R", cst(8 * step, 0)))
            k += step
        return ret0(I, p)
    reg = w.regs[ri]
    lo = edivs(eaddc(p.e, -reg.base), reg.esz); cnt = edivs(n, reg.esz)
    if lo is None or cnt is None: raise Undecided("memset granularity")
    ks = m.seg_range(st, reg, lo, eadd(lo, cnt))
    val = ("R", ofbits(tuple(b8.bits()) * reg.esz) if b8.const() is None else cst(8 * reg.esz, int.from_bytes(bytes([b8.const()]) * reg.esz, "little")))
    for k in ks:
        if reg.segs[k][2] is not None and reg.segs[k][2][0] in ("A", "M"): raise Violation("lifetime", "raw write over live objects")
        reg.segs[k] = (reg.segs[k][0], reg.segs[k][1], val)
    reg.segs = m.segnorm(st, reg.segs)
    return ret0(I, p)
def copy_range(m, st, dst, src, n, I):
    so = m.access(st, src, n, I, "copy source"); do = m.access(st, dst, n, I, "copy destination")
    if do.ro: raise Violation("memory", "write to constant data")
    if "_frozen" in st.gh: m.frozen(st, do, I, "write")
    nc = st.ecval(n)
    sr = m.region_for(st, so, src.e, 1) if so.regs else None
    dr = m.region_for(st, do, dst.e, 1) if do.regs else None
    if sr is None and dr is None and nc is not None and not src.e[0] and not dst.e[0]:
        s0 = src.e[1]; d0 = dst.e[1]
        items = []
        for off, (sz, c) in so.cells.items():
            if off + sz <= s0 or off >= s0 + nc: continue
            if off >= s0 and off + sz <= s0 + nc:
                if c is not None and c[0] in ("A", "M"): raise Violation("lifetime", "raw copy of a live object")
                items.append((off - s0, sz, c))
            else:
                if c is None or c[0] != "R": continue
                bs = m.asint(c[1], 8 * sz).bits(); a0 = max(off, s0); b0 = min(off + sz, s0 + nc)
                items.append((a0 - s0, b0 - a0, ("R", ofbits(bs[8*(a0-off):8*(b0-off)]))))
        if so.default == "zero":
            cov = set()
            for o_, sz_, _ in items: cov |= set(range(o_, o_ + sz_))
            for k in range(nc):
                if k not in cov: items.append((k, 1, ("R", cst(8, 0))))
        w = st.wobj(dst.o)
        m.cellwrite(w, d0, nc, None)
        for off, sz, c in items: w.cells[d0 + off] = (sz, c)
        return
    if sr is None and not so.regs and nc is not None and not src.e[0] and dr is not None:
        # cells -> region element-wise
        es = do.regs[dr].esz
        if nc % es == 0 and nc // es <= 64:
            for k in range(nc // es):
                c = m.getcontent(st, Ptr(src.o, eaddc(src.e, k * es)), es, I, "copy source")
                m.setcontent(st, Ptr(dst.o, eaddc(dst.e, k * es)), es, c, I, "copy")
            return
    if dr is None and nc is not None and sr is not None and not dst.e[0]:
        es = so.regs[sr].esz
        if nc % es == 0 and nc // es <= 64:
            cs = [m.getcontent(st, Ptr(src.o, eaddc(src.e, k * es)), es, I, "copy source") for k in range(nc // es)]
            for k, c in enumerate(cs):
                if c is not None and c[0] in ("A", "M"): raise Violation("lifetime", "raw copy of a live object")
            if all(c is not None for c in cs):
                bs = []
                if nc <= 16:
                    for c in cs: bs += list(m.asint(c[1], 8 * es).bits())
                    m.setcontent(st, dst, nc, ("R", ofbits(bs)), I, "copy")
                else:
                    for k, c in enumerate(cs): m.setcontent(st, Ptr(dst.o, eaddc(dst.e, k * es)), es, c, I, "copy")
            return
    if sr is None and dr is None:
        g = 8 if edivs(n, 8) is not None else 4 if edivs(n, 4) is not None else 1
        sr = m.mkregion(st, so, src.e, g); so = st.mem[src.o]
    if sr is None:
        sr = m.mkregion(st, so, src.e, do.regs[dr].esz, do.regs[dr].esz); so = st.mem[src.o]
    if dst.o == src.o: do = so
    dr = m.region_for(st, do, dst.e, 1) if do.regs else None
    if dr is None:
        dr = m.mkregion(st, do, dst.e, so.regs[sr].esz, so.regs[sr].esz); do = st.mem[dst.o]
    es = so.regs[sr].esz
    if do.regs[dr].esz != es: raise Undecided("copy between different element sizes")
    slo = edivs(eaddc(src.e, -so.regs[sr].base), es); dlo = edivs(eaddc(dst.e, -do.regs[dr].base), es); cnt = edivs(n, es)
    if slo is None or dlo is None or cnt is None: raise Undecided("copy granularity")
    ws = st.wobj(src.o); reg = ws.regs[sr]
    ks = m.seg_range(st, reg, slo, eadd(slo, cnt))
    pieces = [reg.segs[k] for k in ks]
    for p in pieces:
        if p[2] is not None and p[2][0] in ("A", "M"): raise Violation("lifetime", "raw copy of live objects")
    reg.segs = m.segnorm(st, reg.segs)
    wd = st.wobj(dst.o); reg = wd.regs[dr]
    ks = m.seg_range(st, reg, dlo, eadd(dlo, cnt))
    sh = esub(dlo, slo)
    new = []
    for lo, hi, c in pieces:
        nl, nh = eadd(lo, sh), eadd(hi, sh)
        new.append((nl, nh, content_at(c, esub(ea(IDX.id), sh))))
    if ks:
        reg.segs = reg.segs[:ks[0]] + new + reg.segs[ks[-1] + 1:]
    reg.segs = m.segnorm(st, reg.segs)

def said(m, st, I):
    """the program stops: what it was to say must have been printed"""
    if "_say" not in st.gh: return
    out = st.gh.get("_out", ())
    if None in out: raise Undecided("what is printed")
    t = "".join(out)
    for w in st.gh["_say"]:
        if w not in t: m.report(st, "effect", "the program stops without having printed %r on the error stream (printed: %r)" % (w, t), I); return
    m.ok("effect", I, st)
def mustsay(m, st, fr, I, a, name, dem):
    st.gh["_say"] = st.gh.get("_say", ()) + (cstr(m, st, a[0]),)
CONV = re.compile(r"%%|%([-+ #0]*)(\d*)(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z])")
def render(m, st, f, args):
    """what printf writes for constant arguments (None: unknown)"""
    args = list(args)
    def one(g):
        if g.group(0) == "%%": return "%"
        fl, wd, pr, ln, cv = g.groups()
        if pr == "*" or not args: raise ValueError
        v = args.pop(0)
        if cv == "s":
            r = cstr(m, st, v)
            if r is None: raise ValueError
            return ("%" + fl + wd + ("." + pr if pr else "") + "s") % r
        k = v.const() if hasattr(v, "const") else None
        if k is None or cv not in "diouxXc": raise ValueError
        w = {"hh": 8, "h": 16, None: 32}.get(ln, 64)
        k &= (1 << w) - 1
        if cv in "di" and k >> (w - 1): k -= 1 << w
        return chr(k & 255) if cv == "c" else ("%" + fl + wd + ("." + pr if pr else "") + cv) % k
    try: return CONV.sub(one, f)
    except (ValueError, TypeError): return None
def dead(m, st, fr, I, a, name, dem):
    m.ends["abort"] = m.ends.get("abort", 0) + 1
    said(m, st, I)
    if st.gh.get("maystop"): return ("dead",)
    if "mayterminate" not in m.entry: m.report(st, "terminate", "the program is terminated (%s)" % dem, I)
    return ("dead",)
def assertfail(m, st, fr, I, a, name, dem):
    m.ends["abort"] = m.ends.get("abort", 0) + 1
    said(m, st, I)
    if st.gh.get("maystop"): return ("dead",)
    m.report(st, "assertion", "an assertion of the library fails for valid input: %s" % cstr(m, st, a[0]), I)
    return ("dead",)
def alloc_exc(m, st, fr, I, a, name, dem):
    o = m.newobj(st, "excobj", st.mathu(a[0]), "exception object"); return Ptr(o.id)
def cxa_throw(m, st, fr, I, a, name, dem): return ("throw", a[0])
def begin_catch(m, st, fr, I, a, name, dem):
    st.caught = st.caught + (a[0],); st.exc = None
    return a[0]
def end_catch(m, st, fr, I, a, name, dem):
    st.caught = st.caught[:-1]
def rethrow(m, st, fr, I, a, name, dem):
    return ("throw", st.caught[-1] if st.caught else EXC)
def freeze(m, st, fr, I, a, name, dem):
    """from here on nothing that exists outside the stack, nor the given object, may be written"""
    ids = set(st.gh.get("_frozen", ())) | {k for k, o in st.mem.items() if o.kind not in ("stk", "global")}
    if a[0].o is not None: ids.add(a[0].o)
    st.gh["_frozen"] = tuple(sorted(ids))
def thaw(m, st, fr, I, a, name, dem):
    m.ok("effect", I, st); st.gh.pop("_frozen", None)
def noalloc(m, st, fr, I, a, name, dem): st.gh["_noalloc"] = 1
def allocok(m, st, fr, I, a, name, dem):
    m.ok("effect", I, st); st.gh.pop("_noalloc", None)
def guard_acquire(m, st, fr, I, a, name, dem):
    st.gh["_guard"] = st.gh.get("_guard", 0) + 1; return cst(32, 1)
def guard_release(m, st, fr, I, a, name, dem):
    st.gh["_guard"] = st.gh.get("_guard", 1) - 1
    if not st.gh["_guard"]: del st.gh["_guard"]
def maystop(m, st, fr, I, a, name, dem): st.gh["maystop"] = 1
def exc_what(m, st, fr, I, a, name, dem):
    """the message of a standard exception: one event per character"""
    p = a[1]
    if "basic_string" in dem:
        n = st.ecval(st.mathu(m.load(st, Ptr(p.o, eaddc(p.e, 8)), I64, I))); d = m.load(st, p, PTY, I)
        if n is None or n > 100: return None
        t = [byte_at(m, st, d, i, I) for i in range(n)]
    else:
        t = cstr(m, st, p)
        if t is None: return None
        t = [ord(c) for c in t]
    for b in t: st.events = st.events + (("ev", (0xE44, b if b.__class__ is int or b.const() is None else b.const())),)
def ostream_insert(m, st, fr, I, a, name, dem):
    """characters inserted in a stream: one event each"""
    n = st.ecval(st.mathu(a[2]))
    if n is None or n > 300: raise Undecided("length of what is inserted in a stream")
    for i in range(n):
        b = byte_at(m, st, a[1], i, I)
        if isinstance(b, Undef): raise Violation("value", "uninitialised characters are printed")
        st.events = st.events + (("ev", (0xCAFE, b if b.const() is None else b.const())),)
    return a[0]
def output(m, st, fr, I, a, name, dem):
    """something is printed: an event scenarios can count"""
    k = {"printf": 0, "fprintf": 1}.get(name)
    if k is not None:
        f = cstr(m, st, a[k]) or ""; n = len(re.findall(r"%[^%a-zA-Z]*(?:h|hh|l|ll|z|j|t|L)?[diouxXeEfFgGaAcspn]", f.replace("%%", "")))
        if n > len(a) - k - 1: raise Violation("memory", "the format %r reads more arguments than the %d passed" % (f, len(a) - k - 1))
    if "_say" in st.gh:
        t = None; to = {"fprintf": 0, "vfprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3}.get(name)
        known = name in ("printf", "puts") or to is not None and isinstance(a[to], Ptr) and a[to].o in ("g:stderr", "g:stdout")
        err = to is not None and isinstance(a[to], Ptr) and a[to].o == "g:stderr"
        if name == "fprintf": t = render(m, st, cstr(m, st, a[1]) or "%?", a[2:])
        elif name == "fputs": t = cstr(m, st, a[0])
        elif name in ("fputc", "putc"): t = chr(a[0].const() & 255) if a[0].const() is not None else None
        elif name == "fwrite":
            n, k = a[1].const(), a[2].const(); s = cstr(m, st, a[0])
            t = s[:n * k] if s is not None and None not in (n, k) and n * k <= len(s) else None
        if err or not known: st.gh["_out"] = st.gh.get("_out", ()) + (t,)
    st.events = st.events + (("ev", (0xF00D, 0)),)
    return opaque("written", I.ty.w) if I.ty.k == "int" else None
def dyncast(m, st, fr, I, a, name, dem):
    """the runtime's search for a base among the bases of the dynamic type, read from the type information emitted by the compiler"""
    p = a[0]; to = a[2].o
    if p.o is None: return NULL
    ptr = lambda q, off: m.load(st, Ptr(q.o, eaddc(q.e, off)), PTY, I)
    num = lambda q, off: ctr(m.load(st, Ptr(q.o, eaddc(q.e, off)), I64, I).const(), 64)
    vt = ptr(p, 0)
    if vt.o is None or not vt.o.startswith("g:"): raise Undecided("dynamic type")
    top = eaddc(p.e, num(vt, -16)); found = set()
    def walk(ti, off, public):
        if ti.o == to:
            found.add((off, public)); return
        k = ptr(ti, 0).o or ""
        if "si_class_type_info" in k: walk(ptr(ti, 16), off, public)
        elif "vmi_class_type_info" in k:
            n = m.load(st, Ptr(ti.o, eaddc(ti.e, 20)), I32, I).const()
            for i in range(n):
                fl = num(ti, 24 + 16 * i + 8); o = fl >> 8
                if fl & 1: o = num(vt, o) if off == 0 else None
                if o is None: raise Undecided("virtual base")
                walk(ptr(ti, 24 + 16 * i), off + o, public and bool(fl & 2))
    ti = ptr(vt, -8); walk(ti, 0, True)
    r = [o for o, pub in found if pub]
    if len(found) != 1 or not r: return NULL
    return Ptr(p.o, eaddc(top, r[0]))
def noop(m, st, fr, I, a, name, dem): return None
def zero32(m, st, fr, I, a, name, dem): return cst(I.ty.w, 0)
def byte_at(m, st, p, k, I): return m.load(st, Ptr(p.o, eaddc(p.e, k)), I8, I)
def deref(a):
    if isinstance(a, Undef): raise Violation("value", "use of an uninitialised pointer")
    return a
def hashbytes(m, st, fr, I, a, name, dem):
    """an unknown function of the bytes it is given"""
    p = deref(a[0]); n = st.mathu(a[1]); seed = a[2]; k = st.ecval(n)
    if k is not None:
        if k > 256: raise Undecided(name)
        bs = tuple(byte_at(m, st, p, i, I) for i in range(k))
        if any(isinstance(b, Undef) for b in bs): raise Violation("value", "hash of uninitialised bytes")
        key = ("hash", (seed,) + bs)
    else:
        m.access(st, p, n, I, "hash"); o = st.mem[p.o]; c = None
        for r in o.regs:
            for lo, hi, x in r.segs:
                if st.decide_ge(esub(p.e, eaddc(emul(lo, r.esz), r.base))) is True and st.decide_ge(esub(eaddc(emul(hi, r.esz), r.base), eadd(p.e, n))) is True and x is not None:
                    j = edivs(eaddc(p.e, -r.base), r.esz)
                    if j is not None: c = (r.esz, content_at(x, j) if x[1].const() is None else x, content_at(x, eaddc(j, 1)))
        if c is None: raise Undecided(name)
        key = ("hashn", (seed, e2iv(64, n)) + c[1][1:] + c[2][1:])
    return ofatom(mkatom(("fn",) + key + (64,), "%s(...)%d" % (key[0], len(ATOMS)), 64, 0, None, "fn", key, True))
def strlen(m, st, fr, I, a, name, dem):
    p = deref(a[0]); o = st.mem.get(p.o)
    if o is not None and any(st.ecval(r.count) is None for r in o.regs):
        for r in o.regs:
            if r.esz != 1: continue
            pos = eaddc(p.e, -r.base)
            for lo, hi, x in r.segs:
                if st.decide_ge(esub(lo, hi)) is True: continue
                g = st.decide_ge(esub(pos, lo))
                if g is not True: break
                g = st.decide_ge(eaddc(esub(hi, pos), -1))
                if g is None: raise Split(("lin", eaddc(esub(hi, pos), -1)))
                if g is False: continue
                if x is None: raise Violation("value", "a string without terminator")
                if x[1].const() == 0: return e2iv(64, esub(pos, eaddc(p.e, -r.base)))
                if m.nonzero(x[1], cst(8, 0)): pos = hi; continue
                break
    for k in range(4096):
        v = byte_at(m, st, p, k, I)
        if isinstance(v, Undef): raise Violation("value", "a string without terminator")
        if m.nonzero(v, cst(8, 0)): continue
        q = st.red(eqv_poly(v, cst(8, 0)))
        if q == ONE: return cst(64, k)
        if q != ZERO: raise Split(("poly", q))
    raise Undecided("strlen")
def memcmp(m, st, fr, I, a, name, dem):
    n = st.ecval(st.mathu(a[2]))
    if n is None or n > 512: raise Undecided(name)
    x, y = deref(a[0]), deref(a[1])
    for k in range(n):
        u, v = byte_at(m, st, x, k, I), byte_at(m, st, y, k, I)
        if isinstance(u, Undef) or isinstance(v, Undef): raise Violation("value", "comparison of uninitialised bytes")
        q = st.red(eqv_poly(u, v))
        if q == ONE: continue
        if q != ZERO: raise Split(("poly", q))
        for i in range(7, -1, -1):
            d = st.red(u.bits()[i] ^ v.bits()[i])
            if d == ZERO: continue
            if d != ONE: raise Split(("poly", d))
            t = st.red(u.bits()[i])
            if t not in (ZERO, ONE): raise Split(("poly", t))
            return cst(I.ty.w, 1 if t == ONE else (1 << I.ty.w) - 1)
    return cst(I.ty.w, 0)
def memchr(m, st, fr, I, a, name, dem):
    n = st.ecval(st.mathu(a[2]))
    if n is None or n > 512: raise Undecided(name)
    c = trunc_any(a[1], 8); p = deref(a[0])
    for k in range(n):
        v = byte_at(m, st, p, k, I)
        if isinstance(v, Undef): raise Violation("value", "search in uninitialised bytes")
        q = st.red(eqv_poly(v, c))
        if q == ONE: return Ptr(p.o, eaddc(p.e, k))
        if q != ZERO: raise Split(("poly", q))
    return NULL
# ------------------------------------------------------------------ llvm intrinsics
def ctpop(m, st, fr, I, a, name, dem):
    v = a[0]; w = v.w
    if isinstance(v, Undef): return UNDEF
    r = cst(w, 0)
    for p in v.bits():
        q = st.red(p)
        neg = 0 in q
        z = ofbits((pnot(q) if neg else q,) + (ZERO,) * (w - 1))
        r = ivadd(r, ivsub(cst(w, 1), z) if neg else z)
    rw = I.ty.w
    if rw < w: r = trunc(r, rw)
    elif rw > w: r = m.zext(st, r, rw)
    return r
def cttz(m, st, fr, I, a, name, dem):
    v = a[0]
    if isinstance(v, Undef): return UNDEF
    bs = v.bits(); w = v.w
    seq = range(w) if "cttz" in name else range(w - 1, -1, -1)
    for k, i in enumerate(seq):
        q = st.red(bs[i])
        if q == ONE: return cst(w, k)
        if q != ZERO: raise Split(("poly", q))
    if len(a) > 1 and a[1].const() == 1: return UNDEF
    return cst(w, w)
def bswap(m, st, fr, I, a, name, dem):
    b = a[0].bits(); w = a[0].w; r = []
    for k in range(w // 8 - 1, -1, -1): r += b[8*k:8*k+8]
    return ofbits(r)
def bitrev(m, st, fr, I, a, name, dem): return ofbits(tuple(reversed(a[0].bits())))
def minmax(m, st, fr, I, a, name, dem):
    k = name.split(".")[1]
    c = m.icmp(st, ("s" if k[0] == "s" else "u") + "lt", a[0], a[1])
    return m.select(st, c, a[0], a[1]) if k.endswith("min") else m.select(st, c, a[1], a[0])
def absf(m, st, fr, I, a, name, dem):
    c = m.icmp(st, "slt", a[0], cst(a[0].w, 0))
    p = st.red(c.bits()[0])
    if p == ONE: return ivneg(a[0])
    if p == ZERO: return a[0]
    raise Split(("poly", p))
def overflow(m, st, fr, I, a, name, dem):
    k = name.split(".")[1]; op = k[1:]
    r = m.binop(st, op, a[0], a[1], I); s = k[0] == "s"; w = a[0].w
    x, y = st.mathu(a[0], s), st.mathu(a[1], s)
    if op == "mul":
        cx, cy = st.ecval(x), st.ecval(y)
        if cy is not None: e = emul(x, cy)
        elif cx is not None: e = emul(y, cx)
        else: raise Undecided("mul overflow")
    else: e = eadd(x, y) if op == "add" else esub(x, y)
    lo, hi = (-(1 << (w-1)), (1 << (w-1)) - 1) if s else (0, (1 << w) - 1)
    p = pand(ge_poly(eaddc(e, -lo)), ge_poly(eaddc(emul(e, -1), hi)))
    return ("val", (r, b1(st.red(pnot(p)))))
def fsh(m, st, fr, I, a, name, dem):
    w = a[0].w; c = st.cval(a[2])
    if c is None: raise Undecided("funnel shift")
    c %= w
    cat = tuple(a[1].bits()) + tuple(a[0].bits())
    if "fshl" in name: return ofbits(cat[w - c:2 * w - c])
    return ofbits(cat[c:c + w])
def first(m, st, fr, I, a, name, dem): return a[0]
def typeid(m, st, fr, I, a, name, dem): return cst(32, 1)
def trap(m, st, fr, I, a, name, dem):
    raise Violation("ub", "trap")
def fintr(m, st, fr, I, a, name, dem):
    """the value for constant arguments, an uninterpreted term otherwise"""
    f = re.sub(r"^llvm\.|\..*$", "", name); w = I.ty.w
    if f in ("fmod", "fmodf") and not isinstance(a[0], tuple): return m.fop("frem", a, w)
    if f == "fmuladd" and len(a) == 3: return m.fop("fadd", [m.fop("fmul", a[:2], w), a[2]], w)      # never contracted here
    if all(isinstance(x, Flt) and x.t[0] == "c" for x in a) and w in (32, 64):
        x = [y.t[1] for y in a]
        try:
            if f in ("fma", "fmaf") and len(x) == 3:
                from fractions import Fraction
                r = Fraction(x[0]) * Fraction(x[1]) + Fraction(x[2])
                if w == 64 or Fraction(float(r)) == r: return Flt(("c", fround(float(r), w)), w)
            if f in ("floor", "ceil", "trunc"): return Flt(("c", float(getattr(math, f)(x[0]))), w)
            if f == "sqrt" and w == 64: return Flt(("c", math.sqrt(x[0])), w)
        except (OverflowError, ValueError): pass
    return Flt(("call", name) + tuple(x.t if isinstance(x, Flt) else x.lin() for x in a), w)
def fabs_(m, st, fr, I, a, name, dem):
    if a[0].t[0] == "c": return Flt(("c", abs(a[0].t[1])), I.ty.w)
    return Flt(("fabs", a[0].t), I.ty.w)
def isfpclass(m, st, fr, I, a, name, dem):
    k = a[1].const(); n, o = m.ford(a[0], st)
    # signed zeros, normal and subnormal, quiet and signalling values are not told apart
    for g in (3, 0x60, 0x180, 0x18):
        if k & g not in (0, g): raise Undecided("fpclass")
    if k & 0x3fc == 0x3fc: p = ONE
    else:
        p = ZERO; r = lambda lo, hi: pand(ge_poly(eaddc(o, -lo)), ge_poly(eaddc(emul(o, -1), hi)))
        iv = []
        for bit, lo, hi in ((4, 1, 1), (8, 2, 499), (0x20, 500, 500), (0x80, 501, 998), (0x200, 999, 999)):
            if k & bit:
                if iv and iv[-1][1] == lo - 1: iv[-1][1] = hi
                else: iv.append([lo, hi])
        for lo, hi in iv: p = por(p, r(lo, hi))
    return b1(st.red(por(n, pand(pnot(n), p)) if k & 3 else pand(pnot(n), p)))
LLVM = {"llvm.memcpy": memcpy, "llvm.memmove": memcpy, "llvm.memset": memset, "llvm.ctpop": ctpop, "llvm.cttz": cttz, "llvm.ctlz": cttz,
 "llvm.bswap": bswap, "llvm.bitreverse": bitrev, "llvm.umin": minmax, "llvm.umax": minmax, "llvm.smin": minmax, "llvm.smax": minmax,
 "llvm.abs": absf, "llvm.uadd.with": overflow, "llvm.usub.with": overflow, "llvm.umul.with": overflow, "llvm.sadd.with": overflow,
 "llvm.ssub.with": overflow, "llvm.smul.with": overflow, "llvm.fshl": fsh, "llvm.fshr": fsh, "llvm.expect": first, "llvm.is.constant": lambda *a: b1(ZERO),
 "llvm.eh.typeid.for": typeid, "llvm.trap": trap, "llvm.debugtrap": noop, "llvm.fabs": fabs_, "llvm.is.fpclass": isfpclass, "llvm.fmuladd": fintr, "llvm.fma": fintr,
 "llvm.floor": fintr, "llvm.ceil": fintr, "llvm.copysign": fintr, "llvm.stacksave": noop, "llvm.stackrestore": noop, "llvm.launder": first, "llvm.strip": first,
 "llvm.lifetime": noop, "llvm.dbg": noop, "llvm.ptrmask": None, "llvm.round": fintr, "llvm.trunc": fintr, "llvm.pow": fintr}
DEM = {"std::basic_ostream<char, std::char_traits<char>>& std::__ostream_insert": ostream_insert, "std::basic_ostream<char, std::char_traits<char> >& std::__ostream_insert": ostream_insert, **{"std::%s::%s" % (c, c): exc_what for c in ("runtime_error", "logic_error", "invalid_argument", "out_of_range", "length_error", "domain_error", "range_error", "overflow_error")}, "operator new(unsigned long": opnew, "operator new[](unsigned long": opnew, "operator delete(void*": opdel, "operator delete[](void*": opdel,
 "std::terminate()": dead, "__clang_call_terminate": dead, "fmod": fintr}
TABLE = {"nz_assume": assume, "nz_check": check, "nz_reach": reach, "nz_storage": storage, "nz_elems": elems, "nz_raw": rawarr, "nz_cstr": cstrarr, "_ZSt11_Hash_bytesPKvmm": hashbytes, "nz_elem": elemval, "nz_elem8": elemval, "nz_elem16": elemval, "nz_elem32": elemval,
 "nz_value": value, "nz_alive": isalive, "nz_valid": isvalid, "nz_event": event, "nz_evcount": evcount, "nz_evarg": evarg, "nz_maythrow": maythrow, "nz_dump": dump, "nz_live": isowned, "nz_maystop": maystop, "nz_mustsay": mustsay, "__dynamic_cast": dyncast, "fputs": output, "fputc": output, "putc": output, "puts": output, "printf": output, "fprintf": output, "vfprintf": output, "fwrite": output, "fflush": zero32,
 "putchar": output, "perror": output, "nz_inside": contains,
 "malloc": opnew, "free": opdel, "nz_pick": pick, "memcpy": memcpy, "memmove": memcpy, "memset": memset, "strlen": strlen, "memcmp": memcmp, "bcmp": memcmp, "memchr": memchr, "abort": dead, "exit": dead, "_exit": dead, "__assert_fail": assertfail,
 "__clang_call_terminate": dead, "_ZSt9terminatev": dead, "__cxa_pure_virtual": dead,
 "__cxa_allocate_exception": alloc_exc, "__cxa_throw": cxa_throw, "__cxa_begin_catch": begin_catch, "__cxa_end_catch": end_catch, "__cxa_rethrow": rethrow,
 "__cxa_free_exception": noop, "__cxa_guard_acquire": guard_acquire, "__cxa_guard_release": guard_release, "__cxa_guard_abort": guard_release, "nz_freeze": freeze, "nz_thaw": thaw, "nz_noalloc": noalloc, "nz_allocok": allocok, "__cxa_atexit": zero32, "__cxa_get_exception_ptr": first,
 "fmod": fintr, "fmodf": fintr, "sqrt": fintr, "pow": fintr, "powf": fintr}
