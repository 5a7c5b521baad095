"""Joining of paths: the two sides of a branch are run up to the point where they meet and, where their memory has the
same shape, continue as one state whose values are selected by the branch condition."""
import z3
from sym import *


class Join:
    """region between a branch and its join point; sits on the loop context stack of the frame"""
    __slots__ = ("header", "arrived", "exits")
    mode = "merge"
    captures = True
    body = ()

    def __init__(self, at):
        self.header = at
        self.arrived, self.exits = [], []


class No(Exception):
    pass


def fold(ex, states):
    """merge pairwise until nothing merges any more"""
    out = []
    for s in reversed(states):
        cur = s
        again = True
        while again:
            again = False
            for i in range(len(out) - 1, -1, -1):
                r = merge(ex, out[i], cur)
                if r is not None:
                    del out[i]
                    cur = r
                    again = True
                    break
        out.append(cur)
    return out


def common(a, b):
    n = min(len(a), len(b))
    i = 0
    while i < n and (a[i] is b[i] or (is_sym(a[i]) and is_sym(b[i]) and a[i].eq(b[i]))):
        i += 1
    return i


def merge(ex, A, B):
    L = common(A.pc, B.pc)
    if L >= len(A.pc) or L >= len(B.pc):
        return None
    c, d = A.pc[L], B.pc[L]
    if not (simp(z3.Not(c)).eq(d) if is_sym(simp(z3.Not(c))) else False) and not (
            is_sym(simp(z3.Not(d))) and simp(z3.Not(d)).eq(c)):
        return None
    try:
        return Merger(ex, A, B, c, L).run()
    except No:
        return None


def depth(p):
    return 1 + max(depth(p.a), depth(p.b)) if isinstance(p, PIte) else 1


class Merger:
    def __init__(self, ex, A, B, c, L):
        self.ex, self.A, self.B, self.c, self.L = ex, A, B, c, L

    def value(self, a, b, n=None):
        if same(a, b):
            return a
        c = self.c
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, list) or isinstance(b, list):
            if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
                return [self.value(x, y) for x, y in zip(a, b)]
            raise No
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                return Ptr(a.o, simp(ite(c, a.off, b.off, 64)))
            if n is None and isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)) and depth(a) + depth(b) < 5:
                return PIte(c, a, b)
            raise No
        if isinstance(a, FP) or isinstance(b, FP) or a is None or b is None:
            raise No
        ab = isinstance(a, bool) or (is_sym(a) and z3.is_bool(a))
        bb = isinstance(b, bool) or (is_sym(b) and z3.is_bool(b))
        if ab and bb:
            return simp(z3.If(c, ZB(a), ZB(b)))
        if ab or bb:
            if n is None:
                raise No
            a, b = self.ex.asint(self.A, a, n), self.ex.asint(self.B, b, n)
            return simp(z3.If(c, Z(a, 8 * n), Z(b, 8 * n)))
        if is_sym(a):
            w = a.size()
        elif is_sym(b):
            w = b.size()
        elif n is not None:
            w = 8 * n
        else:
            return ("w", a, b)        # both literal: the register's width is needed
        if not (isinstance(a, int) or (is_sym(a) and z3.is_bv(a) and a.size() == w)):
            raise No
        if not (isinstance(b, int) or (is_sym(b) and z3.is_bv(b) and b.size() == w)):
            raise No
        return simp(z3.If(c, Z(a, w), Z(b, w)))

    def run(self):
        ex, A, B, c = self.ex, self.A, self.B, self.c
        if len(A.frames) != len(B.frames) or A.exc != B.exc or A.caught != B.caught:
            raise No
        fa, fb = A.frames[-1], B.frames[-1]
        if fa.allocas != fb.allocas or fa.loops != fb.loops or fa.b != fb.b or fa.i != fb.i:
            raise No
        # memory
        new = {}
        for oid in A.mem.keys() | B.mem.keys():
            a, b = A.mem.get(oid), B.mem.get(oid)
            if a is b:
                continue
            if a is None or b is None:
                o = a if b is None else b
                if o.alive and o.kind not in ("global", "func", "stack"):
                    raise No
                new[oid] = o
                continue
            r = self.obj(a, b)
            if r is not a:
                new[oid] = r
        regs = {}
        tys = None
        for k, v in fa.regs.items():
            if k not in fb.regs:
                continue
            w = fb.regs[k]
            if v is w:
                regs[k] = v
                continue
            try:
                r = self.value(v, w)
            except No:
                if self.live(fa, k):
                    raise
                continue
            if isinstance(r, tuple):
                if tys is None:
                    tys = reg_types(ex, fa.f)
                t = tys.get(k)
                if t is None:
                    raise No
                r = simp(z3.If(c, Z(r[1], t), Z(r[2], t)))
            regs[k] = r
        # addresses
        if A.addr.keys() != B.addr.keys():
            for X, Y in ((A, B), (B, A)):
                for oid in list(Y.addr):
                    if oid not in X.addr and oid in X.mem and X.mem[oid].alive:
                        ex.addr_of(X, oid)
        M = A.fork()
        M.frames[-1].regs = regs
        M.mem = dict(A.mem)
        M.mem.update(new)
        for oid in new:
            if new[oid].owner is not None:
                pass
        M.addr = dict(B.addr)
        M.addr.update(A.addr)
        ea, eb = A.pc[self.L + 1:], B.pc[self.L + 1:]
        M.pc = A.pc[:self.L]
        nc = B.pc[self.L]
        # facts common to both sides stay as they are
        ids = {e.get_id() for e in eb if is_sym(e)}
        both = [e for e in ea if is_sym(e) and e.get_id() in ids]
        bid = {e.get_id() for e in both}
        ea = [e for e in ea if e.get_id() not in bid]
        eb = [e for e in eb if e.get_id() not in bid]
        M.pc.extend(both)
        if ea:
            M.pc.append(z3.Implies(c, z3.And(*ea) if len(ea) > 1 else ea[0]))
        if eb:
            M.pc.append(z3.Implies(nc, z3.And(*eb) if len(eb) > 1 else eb[0]))
        n = 0
        while n < len(A.trace) and n < len(B.trace) and A.trace[n] is B.trace[n]:
            n += 1
        ta, tb = A.trace[n:], B.trace[n:]
        if len(ta) == len(tb) and all(x[0] == y[0] and x[2].eq(y[2]) and x[3] is None and y[3] is None
                                      for x, y in zip(ta, tb)):
            M.trace = list(A.trace)
        else:
            g = lambda e, q: (e[0], e[1], e[2], q if e[3] is None else z3.And(q, e[3]))
            M.trace = A.trace[:n] + [g(e, c) for e in ta] + [g(e, nc) for e in tb]
        for k, v in B.names.items():
            M.names[k] = max(M.names.get(k, 0), v)
        M.hints = A.hints + [h for h in B.hints if not any(h is x or (is_sym(h) and is_sym(x) and h.eq(x))
                                                           for x in A.hints)]
        return M

    def live(self, fr, k):
        """may register k be used at or after the join block?"""
        f = fr.f
        lv = getattr(f, "live_in", None)
        if lv is None:
            lv = f.live_in = liveness(f)
        return k in lv[fr.b]

    def obj(self, a, b):
        if a.alive != b.alive:
            raise No
        if not a.alive:
            return a
        if not same(a.size, b.size) and a.size != b.size:
            raise No
        if a.log is not b.log:
            raise No
        if a.init is not b.init and not (isinstance(a.init, str) and isinstance(b.init, str) and a.init == b.init):
            raise No
        r = None
        for off in a.cells.keys() | b.cells.keys():
            x, y = a.cells.get(off), b.cells.get(off)
            if x is y:
                continue
            if x is not None and y is not None and x[0] == y[0]:
                if same(x[1], y[1]):
                    continue
                v = self.value(x[1], y[1], x[0])
            elif x is None or y is None:
                n = (x or y)[0]
                o = b if y is None else a
                if is_init(o, "undef"):
                    if any(self.ex._byte_at(self.A, o, off + i) is not None for i in range(n)):
                        raise No
                    z = (x or y)[1]
                    if isinstance(z, (Ptr, PIte, FP)):
                        raise No
                    f = self.ex.fresh(8 * n, "uninit")
                    v = self.value(z, f, n) if y is None else self.value(f, z, n)
                else:
                    o2 = o.copy()
                    st = self.B if y is None else self.A
                    z = self.ex.get(st, o2, off, n) if o.log is None else None
                    if z is None:
                        raise No
                    v = self.value(x[1], z, n) if y is None else self.value(z, y[1], n)
            else:
                raise No
            if r is None:
                r = a.copy()
            r.cells[off] = ((x or y)[0], v)
        if r is None:
            return a
        # cells of different granularity must not overlap
        end = -1
        for off in sorted(r.cells):
            if off < end:
                raise No
            end = off + r.cells[off][0]
        return r


def reg_types(ex, f):
    t = getattr(f, "reg_w", None)
    if t is None:
        t = {}
        for b in f.order:
            blk = f.blocks[b]
            for i in list(blk.phis) + list(blk.insts):
                if i.dst is None:
                    continue
                try:
                    ty = ex.m.res(i.ty)
                    if ty.k == "int":
                        t[i.dst] = ty.a
                except Exception:
                    pass
        f.reg_w = t
    return t


def uses(i):
    out = []

    def walk(x):
        if isinstance(x, ir.Local):
            out.append(x.n)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
    walk(i.a)
    return out


def liveness(f):
    gen, kill = {}, {}
    phi_in = {}
    for b in f.order:
        blk = f.blocks[b]
        g, k = set(), set()
        for ph in blk.phis:
            k.add(ph.dst)
            for p, v in ph.a.items():
                if isinstance(v, ir.Local):
                    phi_in.setdefault(p, set()).add(v.n)
        for i in blk.insts:
            for u in uses(i):
                if u not in k:
                    g.add(u)
            if i.dst is not None:
                k.add(i.dst)
        # phi results of the block itself count as live at its start
        g |= {ph.dst for ph in blk.phis}
        gen[b], kill[b] = g, k
    live = {b: set(gen[b]) for b in f.order}
    changed = True
    while changed:
        changed = False
        for b in reversed(f.order):
            blk = f.blocks[b]
            out = set(phi_in.get(b, ()))
            for s in blk.succs:
                out |= live[s] - {ph.dst for ph in f.blocks[s].phis}
            new = gen[b] | (out - kill[b])
            if new != live[b]:
                live[b] = new
                changed = True
    return live
