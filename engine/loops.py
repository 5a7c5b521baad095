"""Loops.

A loop is first followed concretely as long as the path decides every exit.  Otherwise it is cut: the state at the
header is abstracted to "some iteration k", with every location the body may modify replaced by a symbol, constrained by
inferred invariants (candidates filtered by induction, Houdini style).  The final pass re-establishes every invariant
as an obligation (holds on entry, preserved by the body), so inference itself is not trusted.
"""
import z3
from sym import *


class NeedInvariant(Exception):
    def __init__(self, ctx):
        self.ctx = ctx


class Ctx:
    __slots__ = ("header", "body", "mode", "captures", "exits", "backs", "n", "limit", "plan", "key", "depth")

    def __init__(self, header, body, mode):
        self.header, self.body, self.mode = header, body, mode
        self.captures = mode != "unroll"
        self.exits, self.backs = [], []
        self.n = 0
        self.limit = 600
        self.plan = None

    def backedge(self, ex, st, fr, frm):
        if self.mode == "unroll":
            c = Ctx(self.header, self.body, "unroll")
            c.n = self.n + 1
            if c.n > ex.opts["unroll"]:
                if ex.opts["mode"] == "proof":
                    raise EngineError("loop in %s may run more than %d times" % (fr.f.name, ex.opts["unroll"]))
                ex.bounded = True
                raise PathEnd("unrolling bound")
            fr.loops = fr.loops[:-1] + (c,)
            return
        if self.mode == "try":
            self.n += 1
            if self.n > self.limit:
                raise NeedInvariant(self)
            return
        vals = {}
        for ph in fr.f.blocks[self.header].phis:
            vals[ph.dst] = ex.val(st, fr, ph.a[frm])
        if self.mode == "infer":
            self.backs.append((st, vals))
        else:
            self.plan.check_back(ex, st, vals)
        raise PathEnd("back edge")


def enter(ex, st, fr, frm, to):
    body = fr.f.loops[to]
    if ex.opts["mode"] == "bmc" or ex.opts.get("exhaust"):
        # with "exhaust", a proof: leaving a feasible iteration out is an error
        fr.loops = fr.loops + (Ctx(to, body, "unroll"),)
        return
    # concretely
    s1 = st.fork()
    c = Ctx(to, body, "try")
    f1 = s1.top()
    f1.loops = f1.loops + (c,)
    mark = (ex.obl_total, ex.obl_done, dict(ex.obl), dict(ex.covers))
    try:
        ex.enter_block(s1, f1, frm, to)
        ex.run_region([s1])
        ex.work.extend(c.exits)
        raise PathEnd("loop done")
    except NeedInvariant as e:
        if e.ctx is not c:
            raise
        ex.obl_total, ex.obl_done, ex.obl, ex.covers = mark
    plan = Plan(ex, st, fr, frm, to, body)
    exits = plan.solve()
    ex.work.extend(exits)
    raise PathEnd("loop done")


class Loc:
    """a location modified by the loop: its header symbol, entry value and how it is rebuilt as an engine value"""
    __slots__ = ("kind", "id", "w", "sym", "entry", "obj", "stride", "n", "off", "oid", "isbool")

    def term(self):
        return self.sym


def value_term(ex, v, loc):
    """engine value -> z3 term comparable with loc.sym (None if not expressible)"""
    if loc.obj is not None:
        if isinstance(v, Ptr) and v.o == (None if loc.obj == "none" else loc.obj):
            return Z(v.off, 64)
        return None
    if loc.isbool:
        if isinstance(v, bool) or z3.is_bool(v):
            return ZB(v)
        return None
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return Z(v, loc.w)
    if is_sym(v):
        if z3.is_bool(v):
            return z3.If(v, Z(1, loc.w), Z(0, loc.w))
        if v.size() == loc.w:
            return v
    return None


def consts_of(t, acc=None, seen=None):
    """ids of uninterpreted constants in a term"""
    if acc is None:
        acc, seen = set(), set()
    st = [t]
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(e.decl().name())
        else:
            st.extend(e.children())
    return acc


def leaves(v):
    """the alternatives of a value selected by conditions"""
    out, st = [], [v]
    while st and len(out) < 12:
        e = st.pop()
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            st.extend((e.arg(2), e.arg(1)))
        else:
            out.append(e)
    return out


def parts(v, names):
    """the largest alternatives of a selected value that do not mention the given symbols"""
    out, st = [], [v]
    while st and len(out) < 12:
        e = st.pop()
        if not (consts_of(e) & names):
            out.append(e)
        elif z3.is_app_of(e, z3.Z3_OP_ITE):
            st.extend((e.arg(2), e.arg(1)))
    return out


class Plan:
    def __init__(self, ex, st, fr, frm, header, body):
        self.ex, self.st0, self.frm, self.header, self.body = ex, st, frm, header, body
        self.fname = fr.f.name
        self.depth = len(st.frames) - 1
        self.blk = fr.f.blocks[header]
        self.entry_phi = {ph.dst: ex.val(st, fr, ph.a[frm]) for ph in self.blk.phis}
        self.phi_ty = {ph.dst: ex.m.res(ph.ty) for ph in self.blk.phis}
        self.locs = {}           # key -> Loc
        self.objs = {}           # oid -> None | lambda spec
        self.k = z3.BitVec("k!%d" % ex._n(), 64)
        self.affine = False
        self.cands = []
        self.syms = set()
        self.qn = 0

    # --------------------------------------------------------------------------------------------- header states
    def add_loc(self, key, entry, w=None, isptr=False, isbool=False):
        ex = self.ex
        l = Loc()
        l.kind, l.id, l.entry, l.obj, l.isbool, l.stride = key[0], key, entry, None, isbool, None
        l.w = w
        if isptr or isinstance(entry, Ptr):
            if not isinstance(entry, Ptr):
                raise EngineError("loop modifies a pointer selected by a condition")
            l.obj = entry.o if entry.o is not None else "none"
            l.w = 64
        nm = ("h_%s" % "_".join(str(x) for x in key))[:28]
        l.sym = ex.fresh(1 if isbool else l.w, nm)
        self.syms.add(l.sym.decl().name())
        self.locs[key] = l
        return l

    def hval(self, l):
        """engine value of a location at the header"""
        t = l.sym
        if self.affine and l.stride is not None:
            t = self.affine_term(l, self.k)
        t = norm(t) if is_sym(t) else t
        if l.obj is not None:
            return Ptr(None if l.obj == "none" else l.obj, t)
        return t

    def affine_term(self, l, k):
        e = Z(value_term(self.ex, l.entry, l), l.w)
        kk = k if l.w == 64 else (z3.Extract(l.w - 1, 0, k) if l.w < 64 else z3.ZeroExt(l.w - 64, k))
        return simp(e + Z(l.stride & mask(l.w), l.w) * kk)

    def make(self, mode, assume=()):
        ex = self.ex
        H = self.st0.fork()
        fr = H.frames[self.depth]
        c = Ctx(self.header, self.body, mode)
        c.plan = self
        fr.loops = fr.loops + (c,)
        for p, v in self.entry_phi.items():
            l = self.locs.get(("phi", p))
            fr.regs[p] = v if l is None else self.hval(l)
        for key, l in self.locs.items():
            if l.kind == "cell":
                o = H.wobj(l.oid)
                ex.put(H, o, l.off, l.n, self.hval(l))
        for oid, spec in self.objs.items():
            o = H.wobj(oid)
            self.apply_lambda(H, o, spec, self.k)
        for t in assume:
            H.pc.append(t)
        fr.prev, fr.b, fr.i = self.frm, self.header, 0
        return H, c

    def apply_lambda(self, st, o, spec, k):
        if spec is None:
            return
        kind = spec[0]
        if kind == "havoc":
            o.cells = {}
            o.log = None
            o.init = spec[1]
            return
        # ("range", a0 term, stride, payload): bytes [lo,hi) written so far
        _, a0, c, payload = spec
        if c > 0:
            lo, ln = a0, simp(Z(c, 64) * k)
        else:
            ln = simp(Z(-c, 64) * k)
            lo = simp(Z(a0, 64) + (-c) - ln)
        if payload[0] == "fill":
            o.log = ("fill", lo, ln, payload[1], abs(c), o.log)
        elif payload[0] == "copy":
            # payload = (copy, snapshot, source offset for iteration 0)
            soff = payload[2]
            if c < 0:
                soff = simp(Z(soff, 64) + (-c) - ln)
            o.log = ("copy", lo, ln, payload[1], soff, o.log)
        elif payload[0] == "unknown":
            o.log = ("copy", lo, ln, payload[1], 0, o.log)

    def run(self, mode, assume=()):
        H, c = self.make(mode, assume)
        self.ex.run_region([H.fork()])
        return H, c

    # ------------------------------------------------------------------------------------------------- inference
    def solve(self):
        ex = self.ex
        ex.quiet += 1
        try:
            self.infer()
        finally:
            ex.quiet -= 1
        ex.loops_cut[(self.fname, self.header)] = ex.loops_cut.get((self.fname, self.header), 0) + 1
        # entry obligations
        st = self.st0
        sub0 = self.subst_entry()
        for t in self.cands:
            ex.oblige(st, simp(z3.substitute(t, *sub0)), "loop", "invariant holds on entry")
        H, c = self.run("final", self.cands)
        return c.exits

    def stable_frame(self):
        for it in range(16):
            H, c = self.run("infer")
            if not self.extend(H, c):
                return H, c
        raise EngineError("loop frame does not stabilise in " + self.fname)

    def extend(self, H, c):
        ex = self.ex
        new = False
        for st, vals in c.backs:
            fr = H.frames[self.depth]
            for p, v in vals.items():
                hv = fr.regs.get(p)
                if same(v, hv):
                    continue
                key = ("phi", p)
                l = self.locs.get(key)
                if l is None:
                    ty = self.phi_ty[p]
                    if ty.k == "ptr":
                        self.add_loc(key, self.entry_phi[p], isptr=True)
                    elif ty.k == "int":
                        self.add_loc(key, self.entry_phi[p], w=ty.a, isbool=ty.a == 1)
                    else:
                        raise EngineError("loop phi type")
                    l = self.locs[key]
                    new = True
                if value_term(ex, v, l) is None:
                    raise EngineError("loop variable %s changes object in %s" % (p, self.fname))
            for oid in self.st0.mem:
                ob, oh = st.mem.get(oid), H.mem.get(oid)
                if ob is oh:
                    continue
                if ob.alive != oh.alive:
                    raise EngineError("loop ends the lifetime of %s in %s" % (ob.name, self.fname))
                if not ob.alive:
                    continue
                if ob.log is not oh.log:
                    if oid not in self.objs:
                        self.objs[oid] = None
                        self.default_lambda(oid, ob)
                        new = True
                    continue
                if oid in self.objs:
                    continue
                for off, (n, v) in ob.cells.items():
                    hc = oh.cells.get(off)
                    if hc is not None and hc[0] == n and same(hc[1], v):
                        continue
                    if hc is None and is_init(oh, "undef") and ex._byte_at(H, oh, off) is None:
                        continue
                    key = ("cell", oid, off, n)
                    l = self.locs.get(key)
                    if l is None:
                        for k2 in list(self.locs):
                            if k2[0] == "cell" and k2[1] == oid and k2[2] < off + n and off < k2[2] + k2[3]:
                                raise EngineError("loop writes overlapping cells")
                        e0 = ex.get(self.st0, self.st0.mem[oid], off, n)
                        if isinstance(v, (Ptr, PIte)) and not isinstance(e0, Ptr):
                            e0 = ex.coerce(self.st0, e0, PTRTY)
                        if isinstance(e0, FP) or isinstance(v, FP):
                            raise EngineError("fp in loop")
                        l = self.add_loc(key, e0, w=8 * n)
                        l.oid, l.off, l.n = oid, off, n
                        new = True
                    if value_term(ex, v, l) is None:
                        raise EngineError("loop cell %s+%d changes kind in %s" % (ob.name, off, self.fname))
        return new

    def default_lambda(self, oid, ob):
        ex = self.ex
        self.objs[oid] = ("havoc", z3.Array("hv_%s!%d" % (ob.name[:10], ex._n()), z3.BitVecSort(64),
                                            z3.BitVecSort(8)))

    def infer(self):
        ex = self.ex
        H, c = self.stable_frame()
        # constant strides
        for l in self.locs.values():
            if l.isbool:
                continue
            d = None
            for st, vals in c.backs:
                v = value_term(ex, self.back_value(st, vals, l), l)
                dd = simp(v - l.sym)
                if not isinstance(dd, int) or (d is not None and dd != d):
                    d = None
                    break
                d = dd
            if d is not None and d != 0:
                l.stride = sgn(d, l.w)
        self.affine = True
        self.cmps = []
        seen = set()

        def hook(pred, a, b, w):
            if not (is_sym(a) or is_sym(b)):
                return
            key = (pred, a.get_id() if is_sym(a) else a, b.get_id() if is_sym(b) else b, w)
            if key not in seen:
                seen.add(key)
                self.cmps.append((pred, a, b, w))
        self.loads = []

        def lhook(st, v, o, off, n):
            if is_sym(off):
                self.loads.append((st, v, o.id, off, n))
        old = ex.cmp_hook, ex.load_hook
        ex.cmp_hook, ex.load_hook = hook, lhook
        try:
            H, c = self.run("infer")
            if self.extend(H, c):
                raise EngineError("loop frame changes after acceleration in " + self.fname)
            if self.objs:
                self.infer_lambdas(H, c)
                self.cmps, seen, self.loads = [], set(), []
                H, c = self.run("infer")
                if self.extend(H, c):
                    raise EngineError("loop frame changes after content inference in " + self.fname)
        finally:
            ex.cmp_hook, ex.load_hook = old
        self.candidates(H, c)
        self.houdini(H, c)
        # content lambdas must be inductive as well; drop those that are not
        bad = False
        for oid in list(self.objs):
            spec = self.objs[oid]
            if spec[0] != "havoc" and not self.lambda_ok(H, c, oid, self.cands):
                self.default_lambda(oid, self.st0.mem[oid])
                bad = True
        if bad:
            self.cmps, seen, self.loads = [], set(), []
            ex.cmp_hook, ex.load_hook = hook, lhook
            try:
                H, c = self.run("infer")
            finally:
                ex.cmp_hook, ex.load_hook = old
            if self.extend(H, c):
                raise EngineError("loop frame changes after content inference in " + self.fname)
            self.candidates(H, c)
            self.houdini(H, c)

    def back_value(self, st, vals, l):
        if l.kind == "phi":
            return vals[l.id[1]]
        o = st.mem[l.oid]
        v = self.ex.get(st, o, l.off, l.n)
        if l.obj is not None and not isinstance(v, Ptr):
            v = self.ex.coerce(st, v, PTRTY)
        return v

    # ------------------------------------------------------------------------------------------- content lambdas
    def mentions(self, t):
        if not is_sym(t):
            return False
        cs = consts_of(t)
        return bool(cs & self.syms) or self.k.decl().name() in cs

    def k_affine(self, t):
        """(value at k=0, stride) if t is affine in k with loop-invariant base"""
        if not is_sym(t):
            return None
        t0 = zsimp(z3.substitute(t, (self.k, Z(0, 64))))
        d = simp(z3.substitute(t, (self.k, self.k + 1)) - t)
        if not isinstance(d, int) or self.mentions(t0):
            return None
        if isinstance(norm(t0), int):
            t0 = norm(t0)
        return t0, sgn(d, t.size())

    def infer_lambdas(self, H, c):
        ex = self.ex
        for oid in list(self.objs):
            oh = H.mem[oid]
            stores = None
            for st, vals in c.backs:
                ob = st.mem[oid]
                lst = []
                lg = ob.log
                while lg is not None and lg is not oh.log:
                    lst.append(lg)
                    lg = lg[-1]
                if len(lst) == 0:
                    stores = "skip"
                    break
                if len(lst) != 1 or lst[0][0] != "store":
                    stores = "skip"
                    break
                e = lst[0]
                if stores is None:
                    stores = e
                elif not (same(stores[1], e[1]) and stores[2] == e[2]):
                    stores = "skip"
                    break
                elif not same(stores[3], e[3]):
                    stores = ("store", stores[1], stores[2], None, None)
            if stores in (None, "skip"):
                continue
            _, off, n, v, _ = stores
            aff = self.k_affine(off)
            if aff is None or abs(aff[1]) != n:
                continue
            a0, cst = aff
            payload = None
            if v is not None:
                vt = v if isinstance(v, (int, Ptr)) else v
                if isinstance(v, int) or (is_sym(v) and not self.mentions(v)):
                    payload = ("fill", v)
                else:
                    for (lst_, lv, loid, loff, ln) in self.loads:
                        la = self.k_affine(loff)
                        if ln == n and la is not None and la[1] == cst and same(lv, v):
                            src = self.st0.mem.get(loid)
                            if src is None:
                                continue
                            if is_init(src, "undef"):
                                s2 = self.st0.wobj(loid)
                                s2.init = z3.Array("mem_%s!%d" % (src.name[:10], ex._n()), z3.BitVecSort(64),
                                                   z3.BitVecSort(8))
                                src = s2
                            payload = ("copy", snapshot(src), la[0])
                            break
            if payload is None:
                payload = ("unknown", fresh_snapshot(ex, self.st0.mem[oid]))
            self.objs[oid] = ("range", a0, cst, payload)

    def lambda_ok(self, H, c, oid, cands):
        ex = self.ex
        for st, vals in c.backs:
            s = st.fork()
            s.pc.extend(cands)
            if ex.solver.check(s.pc) == "unsat":
                continue
            if not self.lambda_eq(s, oid):
                return False
        return True

    def lambda_eq(self, s, oid):
        ex = self.ex
        o = s.mem[oid]
        ref = self.st0.mem[oid].copy()
        self.apply_lambda(s, ref, self.objs[oid], simp(self.k + 1))
        q = ex.fresh(64, "q")
        s.pc.append(z3.ULT(q, Z(o.size, 64)))
        payload = self.objs[oid][3]
        if payload[0] == "unknown":
            # only the frame is claimed: outside the written range nothing changes
            lg = ref.log
            s.pc.append(z3.Not(ZB(ex._inrange(q, 1, lg[1], lg[2]))))
        if is_init(ref, "undef"):
            # uninitialised content: give entry and current object the same symbolic content
            arr = z3.Array("mem_%s!%d" % (ref.name[:10], ex._n()), z3.BitVecSort(64), z3.BitVecSort(8))
            ref.init = arr
            o = o.copy()
            if not is_init(o, "undef"):
                return False
            o.init = arr
        a = ex.asint(s, ex._read_log(s, o, o.log, q, 1), 1)
        b = ex.asint(s, ex._read_log(s, ref, ref.log, q, 1), 1)
        return ex.valid(s, eq(a, b, 8))

    # ------------------------------------------------------------------------------------------------ candidates
    def subst_entry(self):
        out = [(self.k, Z(0, 64))]
        for l in self.locs.values():
            out.append((l.sym, value_term(self.ex, l.entry, l)))
        return out

    def subst_back(self, st, vals):
        out = [(self.k, self.k + 1)]
        for l in self.locs.values():
            t = value_term(self.ex, self.back_value(st, vals, l), l)
            if t is None:
                raise EngineError("loop variable changes kind")
            out.append((l.sym, t))
        return out

    def candidates(self, H, c):
        ex = self.ex
        C = []
        k = self.k
        strided = [l for l in self.locs.values() if l.stride is not None]
        free = [l for l in self.locs.values() if l.stride is None]
        C.append(z3.ULE(k, Z(1 << 59, 64)))
        X = {}
        for l in strided:
            t = Z(self.affine_term(l, k), l.w)
            X[l.id] = t
            e = value_term(ex, l.entry, l)
            C.append(z3.UGE(t, e) if l.stride > 0 else z3.ULE(t, e))
            C.append(t >= e if l.stride > 0 else t <= e)
            if abs(l.stride) == 1 and l.w == 64 and l.stride > 0:
                C.append(z3.UGE(t, k))
        # comparisons made by the body
        bounds = []
        eqs = []
        hb = list(H.hints)
        for pred, a, b, w in self.cmps:
            A, B = Z(a, w), Z(b, w)
            ma, mb = self.mentions(A), self.mentions(B)
            if not (ma or mb):
                continue
            C.append(z3.ULE(A, B))
            C.append(z3.ULE(B, A))
            C.append(z3.ULT(A, B))
            C.append(z3.ULT(B, A))
            if pred[0] == "s":
                C.append(A <= B)
                C.append(B <= A)
            if w == 64:
                for x, y, mx, my in ((A, B, ma, mb), (B, A, mb, ma)):
                    if mx and not my:
                        aff = self.k_affine(x)
                        if aff is not None:
                            bounds.append((x, aff, y))
                            st = abs(aff[1])
                            if st > 1:
                                if st & (st - 1) == 0:
                                    C.append(((y - x) & (st - 1)) == 0)
                                else:
                                    C.append(z3.URem(y - Z(aff[0], 64), Z(st, 64)) == 0)
                            # the same bound one step earlier / later (loops that test after stepping)
                            C.append(z3.ULE(x - aff[1], y))
                            C.append(z3.ULE(x + aff[1], y))
                            C.append(z3.UGE(x - aff[1], y))
                            if pred in ("eq", "ne"):
                                eqs.append((x, aff, y))
            elif w < 64:
                pass
        # locations changed irregularly
        seenv = {}
        kposts = {}
        for l in free:
            e = value_term(ex, l.entry, l)
            C.append(l.sym == e)
            posts = []
            kp = []
            for st, vals in c.backs:
                v = value_term(ex, self.back_value(st, vals, l), l)
                v = zsimp(v)
                for q in parts(v, self.syms):
                    if self.mentions(q) and not any(q.eq(p) for p in kp):
                        kp.append(q)
                for v in leaves(v):
                    if v.eq(l.sym) or any(v.eq(p) for p in posts):
                        continue
                    posts.append(v)
            inv = [p for p in posts if not self.mentions(p)]
            kposts[l.id] = kp
            # a post value that is another location's value: use that location's entry value as well
            for p in posts:
                if self.mentions(p):
                    p0 = zsimp(z3.substitute(p, *self.subst_entry()))
                    if not any(p0.eq(x) for x in inv):
                        inv.append(p0)
            seenv[l.id] = (e, inv)
            if inv:
                C.append(z3.Or(l.sym == e, *[l.sym == p for p in inv]))
            for p in inv:
                C.append(l.sym == p)
            if not l.isbool:
                C.append(z3.UGE(l.sym, e))
                C.append(z3.ULE(l.sym, e))
        # guards: "the iteration at which x == y is behind us"
        guards = []
        gk = []
        gseen = set()

        def guard(x, aff, y):
            a0, s = Z(aff[0], 64), aff[1]
            if s == 0:
                return
            if s > 0:
                g = z3.And(z3.ULE(a0, y), z3.ULT(y, x))
            elif (-s) & (-s - 1) == 0:
                # counted by iterations: the address below the first element may wrap
                g = z3.ULT(z3.LShR(a0 - y, Z((-s).bit_length() - 1, 64)), k)
            else:
                g = z3.And(z3.ULE(y, a0), z3.ULE(x - s, y))
            gi = zsimp(g).get_id()
            if gi not in gseen and len(guards) < 10:
                gseen.add(gi)
                guards.append(zsimp(g))
                gk.append(iteration(a0, s, y))

        def iteration(a0, s, y):
            """the iteration at which a0 + s*k == y, and the condition under which there is one"""
            d = (y - a0) if s > 0 else (a0 - y)
            s = abs(s)
            if s & (s - 1) == 0:
                return z3.LShR(d, Z(s.bit_length() - 1, 64)), (d & Z(s - 1, 64)) == 0
            return z3.UDiv(d, Z(s, 64)), z3.URem(d, Z(s, 64)) == 0
        for x, aff, y in eqs:
            guard(x, aff, y)
        for l in strided:
            if l.w != 64:
                continue
            t = X[l.id]
            for h in hb:
                C.append(z3.ULE(t, h))
                C.append(z3.ULE(h, t))
                C.append(z3.ULT(t, h))
        for gi, g in enumerate(guards):
            for l in free:
                e, inv = seenv[l.id]
                for p in kposts[l.id]:
                    C.append(z3.Implies(g, l.sym == z3.substitute(p, (k, gk[gi][0]))))
                C.append(z3.Implies(z3.Not(g), l.sym == e))
                C.append(z3.Implies(g, l.sym == e))
                for p in inv:
                    C.append(z3.Implies(g, l.sym == p))
                    C.append(z3.Implies(z3.Not(g), l.sym == p))
                    for g2 in guards:
                        if g2 is not g:
                            C.append(z3.Implies(z3.And(g, z3.Not(g2)), l.sym == p))
                            C.append(z3.Implies(z3.And(g, g2), l.sym == p))
                for g2 in guards[:gi]:
                    C.append(z3.Implies(z3.And(z3.Not(g), z3.Not(g2)), l.sym == e))
        # body conditions that hold for every finished iteration, at the indices the contract names
        base = len(H.pc)
        common = None
        for st, vals in c.backs:
            cs = [zsimp(p) for p in st.pc[base:]]
            if common is None:
                common = cs
            else:
                common = [p for p in common if any(p.eq(q) for q in cs)]
        for p in common or ():
            if self.k.decl().name() not in consts_of(p):
                continue
            for kk, ok in gk:
                C.append(z3.Implies(z3.And(z3.ULT(kk, k), ok), z3.substitute(p, (k, kk))))
            for l in strided:
                if l.w != 64:
                    continue
                s = abs(l.stride)
                if s & (s - 1):
                    continue
                e = value_term(ex, l.entry, l)
                sh = s.bit_length() - 1
                for h in hb:
                    kk = z3.LShR((h - e) if l.stride > 0 else (e - h), sh)
                    C.append(z3.Implies(z3.ULT(kk, k), z3.substitute(p, (k, kk))))
                    C.append(z3.Implies(z3.And(z3.ULT(kk, k), (Z(0, 64) == ((h - e) & (s - 1)))),
                                        z3.substitute(p, (k, kk))))
        # unique, non-trivial
        out, seen = [], set()
        for t in C:
            t = zsimp(t)
            if z3.is_true(t) or t.get_id() in seen:
                continue
            seen.add(t.get_id())
            out.append(t)
        self.keepalive = out
        self.cands = out

    def houdini(self, H, c):
        ex = self.ex
        # entry
        cands = self.cands
        sub0 = self.subst_entry()
        ent = [z3.substitute(t, *sub0) for t in cands]
        s = z3.Solver()
        s.add(*self.st0.pc)
        cands = self.filter(s, cands, ent)
        pending = True
        backs = [(st, self.subst_back(st, vals)) for st, vals in c.backs]
        rounds = 0
        while pending:
            pending = False
            rounds += 1
            for st, sb in backs:
                s = z3.Solver()
                s.add(*st.pc)
                s.add(*cands)
                post = [z3.substitute(t, *sb) for t in cands]
                left = self.filter(s, cands, post, onlyone=True)
                if len(left) != len(cands):
                    cands = left
                    pending = True
        # remove candidates implied by nothing useful is not needed; keep all
        self.cands = cands

    def filter(self, s, cands, post, onlyone=False):
        """drop candidates whose post formula can be false; `onlyone`: stop after the first counterexample model"""
        idx = list(range(len(cands)))
        ex = self.ex
        while idx:
            r, m = decide(s, z3.Or(*[z3.Not(post[i]) for i in idx]), small=self.small())
            if r == "unsat":
                break
            if m is not None:
                keep = [i for i in idx if not z3.is_false(m.eval(post[i], model_completion=True))]
                if len(keep) == len(idx):
                    idx = self.one_by_one(s, idx, post)
                    break
                idx = keep
                if onlyone:
                    break
                continue
            idx = self.one_by_one(s, idx, post)
            break
        return [cands[i] for i in idx]

    def small(self):
        cs = [z3.ULE(self.k, 4)]
        for nm, w, t, g in self.st0.trace:
            if isinstance(w, int) and w == 64:
                cs.append(z3.ULE(t, 6))
        for b in self.st0.addr.values():
            cs.append(z3.ULE(b, 1 << 20))
        return z3.And(*cs)

    def one_by_one(self, s, idx, post):
        return [i for i in idx if decide(s, z3.Not(post[i]), 2000)[0] == "unsat"]

    # -------------------------------------------------------------------------------------------------- final pass
    def check_back(self, ex, st, vals):
        """the body of the final pass reached the back edge: everything assumed at the header must hold again"""
        sb = self.subst_back(st, vals)
        for t in self.cands:
            ex.oblige(st, simp(z3.substitute(t, *sb)), "loop", "invariant preserved")
        H0 = self.st0
        # strides
        for l in self.locs.values():
            if l.stride is not None:
                v = value_term(ex, self.back_value(st, vals, l), l)
                ex.oblige(st, eq(v, self.affine_term(l, simp(self.k + 1)), l.w), "loop", "stride preserved")
        # frame
        for p, v in vals.items():
            if ("phi", p) not in self.locs and not same(v, self.entry_phi[p]):
                raise EngineError("loop frame")
        for oid, o0 in H0.mem.items():
            ob = st.mem.get(oid)
            if ob is o0 or not o0.alive:
                continue
            if not ob.alive:
                raise EngineError("loop frame: lifetime")
            if oid in self.objs:
                if self.objs[oid][0] != "havoc":
                    s = st.fork()
                    ok = self.lambda_eq(s, oid)
                    ex.oblige(st, True if ok else False, "loop", "content invariant preserved")
                continue
            if ob.log is not o0.log:
                raise EngineError("loop frame: log of " + o0.name)
            for off, (n, v) in ob.cells.items():
                if ("cell", oid, off, n) in self.locs:
                    continue
                c0 = o0.cells.get(off)
                if c0 is not None and c0[0] == n and same(c0[1], v):
                    continue
                if c0 is None and is_init(o0, "undef"):
                    continue
                if any(k2[0] == "cell" and k2[1] == oid and k2[2] < off + n and off < k2[2] + k2[3]
                       for k2 in self.locs):
                    raise EngineError("loop frame: partial cell")
                raise EngineError("loop frame: cell %s+%d" % (o0.name, off))


class Snap:
    __slots__ = ("cells", "log", "init", "name", "size")


def snapshot(o):
    s = Snap()
    s.cells, s.log, s.init, s.name, s.size = dict(o.cells), o.log, o.init, o.name, o.size
    return s


def fresh_snapshot(ex, o):
    s = Snap()
    s.cells, s.log, s.name, s.size = {}, None, o.name, o.size
    s.init = z3.Array("un_%s!%d" % (o.name[:10], ex._n()), z3.BitVecSort(64), z3.BitVecSort(8))
    return s


import ir
PTRTY = ir.Ty("ptr")
