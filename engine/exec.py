"""The symbolic executor (see sym.py for values, loops.py for loop cutting, builtins.py for external functions)."""
import time
import z3
import ir
from ir import Const, Local
from sym import *
import sym
import loops
import merge

PTR_MAX = (1 << 63) - 1


class ObjSnapshot:
    """immutable view of an object's content"""
    __slots__ = ("cells", "log", "init", "name", "size")

    def __init__(self, o):
        self.cells, self.log, self.init, self.name, self.size = dict(o.cells), o.log, o.init, o.name, o.size


class Executor:
    def __init__(self, mod, opts=None):
        self.m = mod
        self.opts = dict(mode="proof", unroll=5, size_bound=None, max_paths=20000, deadline=None, timeout_ms=20000,
                         max_fail=1)
        self.opts.update(opts or {})
        self.solver = Solver(self.opts["timeout_ms"])
        self.fresh_n = 0
        self.next_oid = 1
        self.gobj = {}           # global name -> oid
        self.failures = []
        self.obl = {}            # obligation key -> count discharged
        self.obl_total = 0
        self.obl_done = 0
        self.paths = 0
        self.steps = 0
        self.covers = {}
        self.check_align = opts.get("check_align", False)
        self.bounded = False     # a path was cut by the unrolling bound
        self.loops_cut = {}
        self.quiet = 0           # >0: obligations are not recorded (invariant inference)
        self.work = []
        self.typeids = {}
        self.used_funcs = set()
        self.assumed = set()     # external contracts used
        self.load_hook = None
        self.prop = self.opts.get("prop")
        self.cmp_hook = None
        import builtins_ as B
        self.builtins = B.TABLE
        self.builtin_prefix = B.PREFIX
        self.B = B

    # ------------------------------------------------------------------------------------------ fresh symbols
    def fresh(self, w, name="t"):
        self.fresh_n += 1
        if w == 1:
            return z3.Bool("%s!%d" % (name, self.fresh_n))
        return z3.BitVec("%s!%d" % (name, self.fresh_n), w)

    # ----------------------------------------------------------------------------------------------- objects
    def new_obj(self, st, size, align, kind, name, init="undef"):
        oid = self.next_oid
        self.next_oid += 1
        o = Obj(oid, size, align, kind, name, init)
        o.owner = st.tok
        st.mem[oid] = o
        return oid

    def addr_of(self, st, oid):
        """base address term of an object; constrains it against every other live addressed object"""
        b = st.addr.get(oid)
        if b is not None:
            return b
        o = st.mem[oid]
        al = o.align or 1
        if o.misalign is not None:
            b = z3.Concat(z3.BitVec("addr!%d" % oid, 52), z3.Extract(11, 0, Z(o.misalign, 64)))
        elif al > 1:
            k = al.bit_length() - 1
            b = z3.Concat(z3.BitVec("addr!%d" % oid, 64 - k), z3.BitVecVal(0, k))
        else:
            b = z3.BitVec("addr!%d" % oid, 64)
        b = z3.simplify(b)
        st.addr[oid] = b
        size = Z(o.size, 64)
        cs = [b != 0, z3.UGE(b, 4096), z3.ULE(b, 1 << 62), z3.ULE(size, 1 << 62)]
        for oid2, b2 in st.addr.items():
            if oid2 == oid:
                continue
            o2 = st.mem.get(oid2)
            if o2 is None or not o2.alive:
                continue
            # at least one byte apart counts for zero-size objects as well (distinct addresses)
            s1 = z3.If(size == 0, Z(1, 64), size) if not isinstance(o.size, int) else Z(max(o.size, 1), 64)
            s2 = Z(o2.size, 64)
            s2 = z3.If(s2 == 0, Z(1, 64), s2) if not isinstance(o2.size, int) else Z(max(o2.size, 1), 64)
            cs.append(z3.Or(z3.ULE(b + s1, b2), z3.ULE(b2 + s2, b)))
        st.pc.append(z3.And(*cs))
        return b

    def ptr_int(self, st, p):
        if isinstance(p, PIte):
            return ite(p.c, self.ptr_int(st, p.a), self.ptr_int(st, p.b), 64)
        if p.o is None:
            return p.off
        return add(self.addr_of(st, p.o), p.off)

    def int_ptr(self, st, v):
        v = simp(v)
        if isinstance(v, int):
            if v == 0:
                return NULL
            return Ptr(None, v)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            a, b = self.int_ptr(st, v.arg(1)), self.int_ptr(st, v.arg(2))
            if self._prov(a) or self._prov(b):
                return pite(v.arg(0), a, b)
        oids = set()
        seen = set()

        def walk(e):
            if e.get_id() in seen:
                return
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = e.decl().name()
                if n.startswith("addr!"):
                    oids.add(int(n[5:]))
                return
            for c in e.children():
                walk(c)
        walk(v)
        oids = [o for o in oids if o in st.addr]
        if len(oids) == 1:
            o = oids[0]
            return Ptr(o, sub(v, st.addr[o]))
        return Ptr(None, v)

    @staticmethod
    def _prov(p):
        return isinstance(p, PIte) or p.o is not None

    # ------------------------------------------------------------------------------------------- globals
    def global_ptr(self, st, name):
        if name in self.m.aliases:
            return self.const(st, self.m.aliases[name])
        oid = self.gobj.get(name)
        if oid is None:
            oid = self.next_oid
            self.next_oid += 1
            self.gobj[name] = oid
        if oid not in st.mem:
            if name in self.m.funcs:
                o = Obj(oid, 1, 16, "func", name)
                o.func = name
                st.mem[oid] = o
                o.owner = None
                o.ro = True
            else:
                g = self.m.globals.get(name)
                if g is None:
                    raise EngineError("unknown global " + name)
                size = self.m.size(g["ty"]) if g["init"] is not None or g["ty"].k != "opaque" else 8
                o = Obj(oid, size, g["align"] or self.m.align(g["ty"]), "global", name)
                st.mem[oid] = o
                o.owner = st.tok
                if g["init"] is not None:
                    self.init_store(st, o, 0, g["ty"], g["init"])
                else:
                    o.init = "undef"
                o.ro = g["const"]
        return Ptr(oid, 0)

    def init_store(self, st, o, off, ty, c):
        ty = self.m.res(ty)
        if c.k == "zero":
            for i in range(0, self.m.size(ty)):
                o.cells[off + i] = (1, 0)
            # coarser cells for scalar types
            self._zero(o, off, ty)
            return
        if c.k == "bytes":
            for i, b in enumerate(c.v):
                o.cells[off + i] = (1, b)
            return
        if c.k == "agg":
            if ty.k == "struct":
                for f, fo, e in zip(ty.a, self.m.offs(ty), c.v):
                    self.init_store(st, o, off + fo, f, e)
            else:
                es = self.m.size(ty.b)
                for i, e in enumerate(c.v):
                    self.init_store(st, o, off + i * es, ty.b, e)
            return
        if c.k == "undef":
            return
        v = self.const(st, c)
        if ty.k == "int" and ty.a == 1:
            v = int(v)
        o.cells[off] = (self.m.size(ty), v)

    def _zero(self, o, off, ty):
        ty = self.m.res(ty)
        n = self.m.size(ty)
        if ty.k in ("int", "ptr", "fp"):
            for i in range(n):
                o.cells.pop(off + i, None)
            o.cells[off] = (n, NULL if ty.k == "ptr" else (FP(0.0) if ty.k == "fp" else 0))
        elif ty.k == "struct":
            for f, fo in zip(ty.a, self.m.offs(ty)):
                self._zero(o, off + fo, f)
        elif ty.k == "arr" and ty.a <= 4096:
            es = self.m.size(ty.b)
            for i in range(ty.a):
                self._zero(o, off + i * es, ty.b)

    def const(self, st, c):
        k = c.k
        if k == "int":
            return bool(c.v) if c.ty.k == "int" and c.ty.a == 1 else c.v
        if k == "null":
            return NULL
        if k == "global":
            return self.global_ptr(st, c.v)
        if k == "undef":
            return self.undef(c.ty)
        if k == "zero":
            return self.zero(c.ty)
        if k == "fp":
            return FP(c.v)
        if k == "gep":
            bt, base, idx = c.v
            return self.gep(st, bt, self.const(st, base), [(t, self.const(st, x)) for t, x in idx])
        if k == "cast":
            op, ft, x = c.v
            return self.cast(st, op, ft, c.ty, self.const(st, x))
        if k == "binop":
            op, t, x, y = c.v
            return self.binop(st, op, t, self.const(st, x), self.const(st, y), ())
        if k == "agg":
            return [self.const(st, e) for e in c.v]
        if k == "bytes":
            return list(c.v)
        if k == "icmp":
            pred, t, x, y = c.v
            return self.icmp(st, pred, t, self.const(st, x), self.const(st, y))
        raise EngineError("constant " + k)

    def undef(self, ty):
        ty = self.m.res(ty)
        if ty.k == "int":
            return self.fresh(ty.a, "undef")
        if ty.k == "ptr":
            return Ptr(None, self.fresh(64, "undef"))
        if ty.k == "struct":
            return [self.undef(f) for f in ty.a]
        if ty.k in ("arr", "vec"):
            return [self.undef(ty.b) for _ in range(ty.a)]
        return UNDEF

    def zero(self, ty):
        ty = self.m.res(ty)
        if ty.k == "int":
            return False if ty.a == 1 else 0
        if ty.k == "ptr":
            return NULL
        if ty.k == "struct":
            return [self.zero(f) for f in ty.a]
        if ty.k in ("arr", "vec"):
            return [self.zero(ty.b) for _ in range(ty.a)]
        if ty.k == "fp":
            return FP(0.0)
        raise EngineError("zero")

    # ----------------------------------------------------------------------------------------- obligations
    def where(self, st):
        out = []
        for f in reversed(st.frames):
            ins = None
            blk = f.f.blocks[f.b]
            if f.i < len(blk.insts):
                ins = blk.insts[f.i]
            l = self.m.loc(ins.dbg) if ins is not None and ins.dbg else None
            if l:
                out.append("%s (%s:%d)" % (l[0], l[1].split("/")[-1], l[2]))
            if len(out) >= 8:
                break
        return out

    def oblige(self, st, cond, kind, label):
        """record and discharge an obligation; on return the path continues under the obligation"""
        if self.prop is not None and kind == "assert" and len(label) > 3 and self.other_prop(label):
            return
        if self.quiet:
            if cond is True:
                return
            if cond is False:
                raise PathEnd("obligation (inference)")
            st.pc.append(cond)
            if self.solver.check(st.pc) == "unsat":
                raise PathEnd("obligation (inference)")
            return
        key = (kind, label)
        self.obl_total += 1
        if cond is True:
            self.obl_done += 1
            self.obl[key] = self.obl.get(key, 0) + 1
            return
        r = self.solver.check(st.pc, lnot(cond))
        if r == "unsat":
            self.obl_done += 1
            self.obl[key] = self.obl.get(key, 0) + 1
            if cond is not False:
                return
            raise PathEnd("infeasible")
        model = self.solver.model if r == "sat" else None
        if r == "sat":
            model = self.minimise(st, lnot(cond)) or model
        self.failures.append(Failure(kind, label, self.where(st), st.fork(), model, r))
        if len(self.failures) >= self.opts["max_fail"]:
            raise StopRun()
        if cond is False:
            raise PathEnd("failed obligation")
        st.pc.append(cond)
        if self.solver.check(st.pc) == "unsat":
            raise PathEnd("failed obligation")

    def other_prop(self, label):
        """label "V01/V02: text" names the properties an assertion belongs to; others' assertions are left to them"""
        h = label.split(":", 1)[0]
        ps = h.split("/")
        if all(len(p) == 3 and p[0].isupper() and p[1:].isdigit() for p in ps):
            return self.prop not in ps
        return False

    def minimise(self, st, extra):
        """prefer small inputs in the counterexample"""
        best = None
        cs = []
        for name, w, t, g in st.trace:
            if is_sym(t) and isinstance(w, int) and w >= 32:
                cs.append((t, w))
        base = list(st.pc) + ([extra] if extra is not True else [])
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*[c for c in base if c is not True])
        for b in (2, 4, 8, 16, 64, 1024, 1 << 20):
            s.push()
            for t, w in cs:
                s.add(z3.ULE(t, b))
            if str(s.check()) == "sat":
                return s.model()
            s.pop()
        # individually
        for t, w in cs:
            for b in (0, 1, 2, 4, 8, 16, 64, 1024, 65536):
                s.push()
                s.add(z3.ULE(t, b))
                if str(s.check()) == "sat":
                    best = s.model()
                    break
                s.pop()
        return best

    def feasible(self, st, cond):
        if cond is True:
            return True
        if cond is False:
            return False
        return self.solver.check(st.pc, cond, model=False) != "unsat"

    def valid(self, st, cond):
        if cond is True:
            return True
        if cond is False:
            return self.solver.check(st.pc) == "unsat"
        return self.solver.check(st.pc, lnot(cond), model=False) == "unsat"

    def assume(self, st, cond):
        if cond is True:
            return
        if cond is False:
            raise PathEnd("assume")
        st.pc.append(cond)
        if self.solver.check(st.pc) == "unsat":
            raise PathEnd("assume")

    def branch(self, st, cond):
        """returns list of (state, bool); st itself is one of them"""
        if isinstance(cond, bool):
            return [(st, cond)]
        cond = simp(cond)
        if isinstance(cond, bool):
            return [(st, cond)]
        t = self.feasible(st, cond)
        if not t:
            st.pc.append(lnot(cond))
            return [(st, False)]
        nc = lnot(cond)
        f = self.feasible(st, nc)
        if not f:
            st.pc.append(cond)
            return [(st, True)]
        o = st.fork()
        st.pc.append(cond)
        o.pc.append(nc)
        return [(st, True), (o, False)]

    # ------------------------------------------------------------------------------------------- memory
    def resolve(self, st, p, n, what, write=False):
        """check an access of n bytes at p; returns (obj, off). PIte pointers must be split by the caller"""
        if p is UNDEF:
            self.oblige(st, False, "memory", what + " through an uninitialised pointer")
        if p.o is None:
            if is_sym(p.off):
                q = self.int_ptr(st, p.off)
                if isinstance(q, Ptr) and q.o is not None:
                    return self.resolve(st, q, n, what, write)
                q = self.search_object(st, p.off)
                if q is not None:
                    return self.resolve(st, q, n, what, write)
            self.oblige(st, False, "memory", what + " through a null or invalid pointer")
            raise PathEnd("bad pointer")
        o = st.mem[p.o]
        if not o.alive:
            self.oblige(st, False, "memory", what + " of released memory")
            raise PathEnd("dead")
        if o.kind == "func":
            self.oblige(st, False, "memory", what + " of code")
        if write and o.ro:
            self.oblige(st, False, "memory", "write to constant object")
        if isinstance(p.off, int) and isinstance(o.size, int) and isinstance(n, int):
            inb = p.off + n <= o.size
        else:
            nn = Z(n, 64)
            sz = Z(o.size, 64)
            inb = z3.And(z3.ULE(nn, sz), z3.ULE(Z(p.off, 64), sz - nn))
        self.oblige(st, simp(inb) if is_sym(inb) else inb, "memory", what + " within bounds")
        return o, p.off

    def search_object(self, st, a):
        for oid, b in st.addr.items():
            o = st.mem.get(oid)
            if o is None or not o.alive:
                continue
            off = sub(a, b)
            if self.valid(st, land(ult(off, o.size if not isinstance(o.size, int) else max(o.size, 1)))):
                return Ptr(oid, off)
        return None

    # byte-level helpers
    def tobytes(self, st, v, n):
        """value -> list of n bytes (little endian), ints or BV8"""
        if isinstance(v, (Ptr, PIte)):
            v = self.ptr_int(st, v)
        if isinstance(v, FP):
            import struct
            if isinstance(v.v, float):
                return list(struct.pack("<d" if n == 8 else "<f", v.v))
            raise EngineError("symbolic fp bytes")
        if v is UNDEF:
            return [self.fresh(8, "undef") for _ in range(n)]
        if isinstance(v, bool):
            return [int(v)] + [0] * (n - 1)
        if z3.is_bool(v):
            v = z3.If(v, Z(1, 8 * n), Z(0, 8 * n))
        if isinstance(v, int):
            return [(v >> (8 * i)) & 255 for i in range(n)]
        w = v.size()
        if w < 8 * n:
            v = z3.ZeroExt(8 * n - w, v)
        if n == 1:
            return [v]
        return [norm(zsimp(z3.Extract(8 * i + 7, 8 * i, v))) for i in range(n)]

    def frombytes(self, bs):
        if all(isinstance(b, int) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        if len(bs) == 1:
            return bs[0]
        return simp(z3.Concat(*[Z(b, 8) for b in reversed(bs)]))

    def put(self, st, o, off, n, v):
        """store value v of n bytes into (writable) object o at off"""
        if isinstance(off, int) and o.log is None:
            c = o.cells
            hit = c.get(off)
            if hit is not None and hit[0] == n:
                c[off] = (n, v)
                return
            for k in range(off - 15, off + n):
                h = c.get(k)
                if h is None:
                    continue
                if k + h[0] <= off:
                    continue
                # overlapping: split into bytes
                bs = self.tobytes(st, h[1], h[0])
                del c[k]
                for j, b in enumerate(bs):
                    c[k + j] = (1, b)
            for k in range(off, off + n):
                c.pop(k, None)
            c[off] = (n, v)
            return
        o.log = ("store", off, n, v, o.log)

    def get(self, st, o, off, n):
        """read n bytes at off: returns a value (int/BV/Ptr/FP...)"""
        return self._read_log(st, o, o.log, off, n)

    def _alias(self, st, off, n, eoff, en):
        """relation of [off,off+n) to [eoff,eoff+en): 'same','in','out','may'"""
        if isinstance(off, int) and isinstance(eoff, int) and isinstance(en, int):
            if off + n <= eoff or eoff + en <= off:
                return "out"
            if off == eoff and n == en:
                return "same"
            if eoff <= off and off + n <= eoff + en:
                return "in"
            return "may"
        d = sub(off, eoff)
        if isinstance(d, int) and isinstance(en, int):
            if d == 0 and n == en:
                return "same"
            sd = sgn(d, 64)
            if sd + n <= 0 or sd >= en:
                return "out"
            if 0 <= sd and sd + n <= en:
                return "in"
            return "may"
        D, N, EN = Z(d, 64), Z(n, 64), Z(en, 64)
        # offsets are < 2^62, so differences are exact in signed 64 bit
        inside = z3.And(z3.ULE(N, EN), z3.ULE(D, EN - N))
        outside = z3.Or(z3.And(z3.UGE(D, EN), z3.ULE(D, Z(-n & mask(64), 64))), EN == 0)
        if self.valid(st, outside):
            return "out"
        if self.valid(st, inside):
            if isinstance(en, int) and en == n:
                return "same"
            return "in"
        return "may"

    def _read_log(self, st, o, log, off, n):
        while log is not None:
            kind = log[0]
            if kind == "store":
                _, eoff, en, v, prev = log
                a = self._alias(st, off, n, eoff, en)
                if a == "out":
                    log = prev
                    continue
                if a == "same":
                    return v
                if a == "in" and isinstance(sub(off, eoff), int):
                    d = sub(off, eoff)
                    return self.frombytes(self.tobytes(st, v, en)[d:d + n])
                if n == en and n > 1:
                    # can it be only equal or disjoint?
                    D = Z(sub(off, eoff), 64)
                    part = z3.And(D != 0, z3.Or(z3.ULT(D, n), z3.UGT(D, Z(-n & mask(64), 64))))
                    if not self.feasible(st, part):
                        rest = self._read_log(st, o, prev, off, n)
                        return self.merge(st, eq(off, eoff), v, rest, n)
                if n == 1:
                    bs = self.tobytes(st, v, en)
                    rest = self._read_log(st, o, prev, off, 1)
                    r = Z(self.asint(st, rest, 1), 8)
                    D = Z(sub(off, eoff), 64)
                    for i, b in enumerate(bs):
                        r = z3.If(D == i, Z(b, 8), r)
                    return simp(r)
                return self._bytewise(st, o, log, off, n)
            elif kind == "fill":
                _, eoff, ln, v, vn, prev = log
                a = self._alias(st, off, n, eoff, ln)
                if a == "out":
                    log = prev
                    continue
                if a in ("in", "same"):
                    if vn == 1:
                        return self.frombytes([v] * n) if n > 1 else v
                    if n == vn and self.valid(st, (Z(sub(off, eoff), 64) & (vn - 1)) == 0):
                        return v
                    if n == 1:
                        bs = self.tobytes(st, v, vn)
                        D = Z(sub(off, eoff), 64) & (vn - 1)
                        r = Z(bs[0], 8)
                        for i, b in enumerate(bs[1:], 1):
                            r = z3.If(D == i, Z(b, 8), r)
                        return simp(r)
                    return self._bytewise(st, o, log, off, n)
                # may
                if n == vn and n > 1 and self._elementwise(st, off, eoff, ln, n):
                    rest = self._read_log(st, o, prev, off, n)
                    return self.merge(st, self._inrange(off, n, eoff, ln), v, rest, n)
                if n == 1:
                    rest = self._read_log(st, o, prev, off, 1)
                    cond = self._inrange(off, 1, eoff, ln)
                    bs = self.tobytes(st, v, vn)
                    D = Z(sub(off, eoff), 64) & (vn - 1)
                    r = Z(bs[0], 8)
                    for i, b in enumerate(bs[1:], 1):
                        r = z3.If(D == i, Z(b, 8), r)
                    return simp(z3.If(ZB(cond), r, Z(self.asint(st, rest, 1), 8)))
                return self._bytewise(st, o, log, off, n)
            elif kind == "copy":
                _, eoff, ln, snap, soff, prev = log
                a = self._alias(st, off, n, eoff, ln)
                if a == "out":
                    log = prev
                    continue
                s2 = add(sub(off, eoff), soff)
                if a in ("in", "same"):
                    return self._read_log(st, snap, snap.log, s2, n)
                if n == 1 or self._elementwise(st, off, eoff, ln, n):
                    cond = self._inrange(off, n, eoff, ln)
                    rest = self._read_log(st, o, prev, off, n)
                    st2 = st.fork()
                    st2.pc.append(ZB(cond))
                    inner = self._read_log(st2, snap, snap.log, s2, n)
                    return self.merge(st, cond, inner, rest, n)
                return self._bytewise(st, o, log, off, n)
            else:
                raise EngineError("log " + kind)
        return self._read_base(st, o, off, n)

    def _inrange(self, off, n, eoff, ln):
        D = sub(off, eoff)
        if isinstance(ln, int) and isinstance(D, int):
            return D + n <= ln
        return simp(z3.And(z3.ULE(Z(n, 64), Z(ln, 64)), z3.ULE(Z(D, 64), Z(ln, 64) - n)))

    def _elementwise(self, st, off, eoff, ln, n):
        """no partial overlap of an n byte access with the range (everything n-aligned)"""
        D = Z(sub(off, eoff), 64)
        L = Z(ln, 64)
        return self.valid(st, z3.And((D & (n - 1)) == 0, (L & (n - 1)) == 0)) if n & (n - 1) == 0 else False

    def _bytewise(self, st, o, log, off, n):
        bs = [self.asint(st, self._read_log(st, o, log, add(off, i), 1), 1) for i in range(n)]
        return self.frombytes(bs)

    def asint(self, st, v, n):
        if isinstance(v, int) and not isinstance(v, bool):
            return v
        if is_sym(v) and z3.is_bv(v) and v.size() == 8 * n:
            return v
        return self.frombytes(self.tobytes(st, v, n))

    def merge(self, st, c, a, b, n):
        if c is True:
            return a
        if c is False:
            return b
        if same(a, b):
            return a
        if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
            return pite(c, a, b)
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            if b == 0 or a == 0:
                f = lambda x: NULL if isinstance(x, int) and x == 0 else x
                return pite(c, f(a), f(b))
        return ite(c, self.asint(st, a, n), self.asint(st, b, n), 8 * n)

    def _read_base(self, st, o, off, n):
        cells = o.cells
        if isinstance(off, int):
            h = cells.get(off)
            if h is not None and h[0] == n:
                return h[1]
            # assemble
            bs = []
            missing = 0
            for i in range(n):
                b = self._byte_at(st, o, off + i)
                if b is None:
                    missing += 1
                bs.append(b)
            if missing == n:
                if is_init(o, "undef"):
                    v = self.fresh(8 * n, "uninit_" + o.name[:12])
                    if isinstance(o, Obj):
                        cells[off] = (n, v)
                    return v
                if is_init(o, "zero"):
                    return 0
                if isinstance(o.init, tuple) and o.init[0] == "ptr":
                    raise EngineError("ptr init")
                return self.frombytes([norm(zsimp(z3.Select(o.init, Z(off + i, 64)))) for i in range(n)])
            for i in range(n):
                if bs[i] is None:
                    if is_init(o, "undef"):
                        v = self.fresh(8, "uninit")
                        cells[off + i] = (1, v)
                        bs[i] = v
                    elif is_init(o, "zero"):
                        bs[i] = 0
                    else:
                        bs[i] = norm(zsimp(z3.Select(o.init, Z(off + i, 64))))
            return self.frombytes(bs)
        # symbolic offset
        if is_init(o, "undef") and not cells:
            # give the object a symbolic array as its (uninitialised) content, consistently
            arr = z3.Array("mem_%s!%d" % (o.name[:12], self._n()), z3.BitVecSort(64), z3.BitVecSort(8))
            o.init = arr
        if is_init(o, "undef"):
            size = o.size
            full = isinstance(size, int) and sum(c[0] for c in cells.values()) >= size
            if not full:
                o.init = z3.Array("mem_%s!%d" % (o.name[:12], self._n()), z3.BitVecSort(64), z3.BitVecSort(8))
        items = sorted(cells.items())
        # element-wise merge when every cell has the access size
        cand = [(k, c) for k, c in items if c[0] == n]
        r = None
        if is_init(o, "zero"):
            r = 0
        elif is_init(o, "undef"):
            r = None
        else:
            r = self.frombytes([z3.Select(o.init, Z(add(off, i), 64)) for i in range(n)])
        if all(c[0] == n for k, c in items):
            for k, c in items:
                cond = eq(off, k)
                if not self.feasible(st, cond):
                    continue
                r = c[1] if r is None else self.merge(st, cond, c[1], r, n)
            if r is None:
                r = self.fresh(8 * n, "uninit")
            return r
        if n == 1:
            r = Z(self.fresh(8, "uninit") if r is None else r, 8)
            for k, c in items:
                bs = self.tobytes(st, c[1], c[0])
                for i, b in enumerate(bs):
                    r = z3.If(Z(off, 64) == k + i, Z(b, 8), r)
            return simp(r)
        return self.frombytes([self._read_base(st, o, add(off, i), 1) for i in range(n)])

    def _n(self):
        self.fresh_n += 1
        return self.fresh_n

    def _byte_at(self, st, o, off):
        for k in range(off, off - 16, -1):
            h = o.cells.get(k)
            if h is not None and k + h[0] > off:
                return self.tobytes(st, h[1], h[0])[off - k]
        return None

    # typed access
    def load(self, st, p, ty, what="read"):
        ty = self.m.res(ty)
        if ty.k in ("struct", "arr", "vec"):
            out = []
            if ty.k == "struct":
                for f, fo in zip(ty.a, self.m.offs(ty)):
                    out.append(self.load(st, self.padd(p, fo), f, what))
            else:
                es = self.m.size(ty.b)
                for i in range(ty.a):
                    out.append(self.load(st, self.padd(p, i * es), ty.b, what))
            return out
        if isinstance(p, PIte):
            # evaluate each arm under its condition
            sa = st.fork()
            a = b = None
            ok_a = self.feasible(st, p.c)
            ok_b = self.feasible(st, lnot(p.c))
            if ok_a:
                sa.pc.append(ZB(p.c))
                a = self.load(sa, p.a, ty, what)
            if ok_b:
                sb = st.fork()
                sb.pc.append(ZB(lnot(p.c)))
                b = self.load(sb, p.b, ty, what)
            if not ok_a:
                return b
            if not ok_b:
                return a
            if ty.k == "int" and ty.a == 1:
                return simp(z3.If(p.c, ZB(a), ZB(b)))
            if isinstance(a, FP):
                raise EngineError("fp merge")
            return self.coerce(st, self.merge(st, p.c, a, b, self.m.size(ty)), ty)
        n = self.m.size(ty)
        o, off = self.resolve(st, p, n, what)
        if o.owner != st.tok and (is_init(o, "undef")):
            o = st.wobj(o.id)     # reads of uninitialised memory memoise their value
        v = self.get(st, o, off, n)
        if self.load_hook is not None:
            self.load_hook(st, v, o, off, n)
        return self.coerce(st, v, ty)

    def coerce(self, st, v, ty):
        if ty.k == "int":
            if v is UNDEF:
                return self.fresh(ty.a, "undef")
            if ty.a == 1:
                if isinstance(v, (bool,)) or z3.is_bool(v):
                    return v
                if isinstance(v, int):
                    return bool(v & 1)
                return simp(z3.Extract(0, 0, v) == 1)
            if isinstance(v, (Ptr, PIte)):
                return self.ptr_int(st, v)
            if isinstance(v, FP):
                return self.frombytes(self.tobytes(st, v, ty.a // 8))
            if isinstance(v, bool):
                return int(v)
            if z3.is_bool(v):
                return z3.If(v, Z(1, ty.a), Z(0, ty.a))
            if isinstance(v, int):
                return v & mask(ty.a)
            if v.size() > ty.a:
                return simp(z3.Extract(ty.a - 1, 0, v))
            return v
        if ty.k == "ptr":
            if isinstance(v, (Ptr, PIte)):
                return v
            if v is UNDEF:
                return Ptr(None, self.fresh(64, "undef"))
            return self.int_ptr(st, v)
        if ty.k == "fp":
            if isinstance(v, FP):
                return v
            if isinstance(v, int):
                import struct
                n = ty.a // 8
                return FP(struct.unpack("<d" if n == 8 else "<f", v.to_bytes(n, "little"))[0])
            return FP(self.fresh(ty.a, "fp"))
        raise EngineError("coerce")

    def padd(self, p, n):
        if isinstance(p, PIte):
            return pite(p.c, self.padd(p.a, n), self.padd(p.b, n))
        return Ptr(p.o, add(p.off, n))

    def store(self, st, p, ty, v, what="write"):
        ty = self.m.res(ty)
        if ty.k == "struct":
            for f, fo, e in zip(ty.a, self.m.offs(ty), v):
                self.store(st, self.padd(p, fo), f, e, what)
            return
        if ty.k in ("arr", "vec"):
            es = self.m.size(ty.b)
            for i, e in enumerate(v):
                self.store(st, self.padd(p, i * es), ty.b, e, what)
            return
        n = self.m.size(ty)
        if ty.k == "int" and ty.a == 1:
            v = int(v) if isinstance(v, bool) else z3.If(v, Z(1, 8), Z(0, 8))
        if v is UNDEF:
            v = self.fresh(8 * n, "undef")
        if is_sym(v) and v.size() < 8 * n:
            v = simp(z3.ZeroExt(8 * n - v.size(), v))
        o, off = self.resolve(st, p, n, what, write=True)
        o = st.wobj(o.id)
        self.put(st, o, off, n, v)

    def memcpy(self, st, d, s, n):
        n = simp(n)
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, int):
            # an empty copy touches nothing
            for st2, nz in self.split(st, n != 0):
                if not nz:
                    return
        so, soff = self.resolve(st, s, n, "copy source read")
        do, doff = self.resolve(st, d, n, "copy destination write", write=True)
        if isinstance(n, int) and isinstance(soff, int) and isinstance(doff, int) and so.log is None and \
                do.log is None and n <= 1024:
            i = 0
            items = []
            while i < n:
                h = so.cells.get(soff + i)
                if h is not None and i + h[0] <= n:
                    items.append((i, h[0], h[1]))
                    i += h[0]
                    continue
                b = self._byte_at(st, so, soff + i)
                if b is None:
                    if is_init(so, "zero"):
                        b = 0
                    elif is_init(so, "undef"):
                        b = UNDEF
                    else:
                        b = norm(zsimp(z3.Select(so.init, Z(soff + i, 64))))
                items.append((i, 1, b))
                i += 1
            do = st.wobj(do.id)
            for i, k, v in items:
                if v is UNDEF:
                    # uninitialised stays uninitialised
                    for kk in range(doff + i - 15, doff + i + 1):
                        h = do.cells.get(kk)
                        if h is not None and kk + h[0] > doff + i:
                            bs = self.tobytes(st, h[1], h[0])
                            del do.cells[kk]
                            for j, bb in enumerate(bs):
                                do.cells[kk + j] = (1, bb)
                    do.cells.pop(doff + i, None)
                    if not is_init(do, "undef"):
                        do.cells[doff + i] = (1, self.fresh(8, "undef"))
                else:
                    self.put(st, do, doff + i, k, v)
            return
        snap = ObjSnapshot(so)
        if is_init(snap, "undef"):
            so2 = st.wobj(so.id)
            so2.init = z3.Array("mem_%s!%d" % (so.name[:12], self._n()), z3.BitVecSort(64), z3.BitVecSort(8))
            snap = ObjSnapshot(so2)
        do = st.wobj(do.id)
        do.log = ("copy", doff, n, snap, soff, do.log)

    def split(self, st, cond):
        """fork on cond in the middle of an instruction: the other state re-executes the instruction"""
        r = self.branch(st, cond)
        if len(r) == 2:
            self.work.append(r[1][0])
        return [r[0]]

    def memset(self, st, d, v, n):
        n = simp(n)
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, int):
            for st2, nz in self.split(st, n != 0):
                if not nz:
                    return
        do, doff = self.resolve(st, d, n, "fill write", write=True)
        do = st.wobj(do.id)
        if isinstance(n, int) and isinstance(doff, int) and do.log is None and n <= 1024:
            for i in range(n):
                self.put(st, do, doff + i, 1, v)
            return
        do.log = ("fill", doff, n, v, 1, do.log)

    # -------------------------------------------------------------------------------------------- operators
    def gep(self, st, bt, base, idx):
        t = bt
        off = 0
        first = True
        for it, v in idx:
            if first:
                es = self.m.size(t)
                v = self.sext64(v, it)
                off = add(off, mul(v, es))
                first = False
                continue
            t = self.m.res(t)
            if t.k == "struct":
                if not isinstance(v, int):
                    raise EngineError("gep struct index")
                off = add(off, self.m.offs(t)[v])
                t = t.a[v]
            else:
                t = t.b
                v = self.sext64(v, it)
                off = add(off, mul(v, self.m.size(t)))
        if off == 0 and isinstance(off, int):
            return base
        return self.padd(base, off)

    def sext64(self, v, ty):
        w = ty.a
        if isinstance(v, bool):
            v = int(v)
        if w == 64:
            return v
        if isinstance(v, int):
            return sgn(v, w) & mask(64)
        return simp(z3.SignExt(64 - w, v))

    def binop(self, st, op, ty, a, b, flags):
        if ty.k == "fp":
            if isinstance(a, FP) and isinstance(b, FP) and isinstance(a.v, float) and isinstance(b.v, float):
                return FP({"fadd": a.v + b.v, "fsub": a.v - b.v, "fmul": a.v * b.v,
                           "fdiv": a.v / b.v if b.v else float("nan")}[op])
            raise EngineError("symbolic floating point")
        w = ty.a
        if w == 1:
            if op in ("xor", "add", "sub"):
                if isinstance(a, bool) and isinstance(b, bool):
                    return a != b
                if b is True:
                    return lnot(a)
                if a is True:
                    return lnot(b)
                return simp(z3.Xor(ZB(a), ZB(b)))
            if op in ("and", "mul"):
                r = land(a, b)
                return simp(r) if is_sym(r) else r
            if op == "or":
                r = lor(a, b)
                return simp(r) if is_sym(r) else r
            raise EngineError("i1 " + op)
        if op == "add":
            return add(a, b, w)
        if op == "sub":
            return sub(a, b, w)
        if op == "mul":
            return mul(a, b, w)
        conc = isinstance(a, int) and isinstance(b, int)
        if op in ("udiv", "urem", "sdiv", "srem"):
            self.oblige(st, lnot(eq(b, 0, w)), "arith", "division by non-zero")
            if conc:
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                q = q if (x < 0) == (y < 0) else -q
                return (q if op == "sdiv" else x - q * y) & mask(w)
            if isinstance(b, int) and b & (b - 1) == 0 and op in ("udiv", "urem"):
                k = b.bit_length() - 1
                return simp(z3.LShR(a, k) if op == "udiv" else a & (b - 1))
            if op == "sdiv" and isinstance(b, int) and b & (b - 1) == 0 and "exact" in flags:
                return simp(a >> (b.bit_length() - 1))
            A, Bv = Z(a, w), Z(b, w)
            return simp({"udiv": z3.UDiv, "urem": z3.URem, "sdiv": lambda x, y: x / y, "srem": z3.SRem}[op](A, Bv))
        if op in ("shl", "lshr", "ashr"):
            if isinstance(b, int):
                if b >= w:
                    self.oblige(st, False, "arith", "shift amount in range")
                if conc:
                    if op == "shl":
                        return (a << b) & mask(w)
                    if op == "lshr":
                        return a >> b
                    return (sgn(a, w) >> b) & mask(w)
            else:
                self.oblige(st, ult(b, w, w), "arith", "shift amount in range")
            A, Bv = Z(a, w), Z(b, w)
            return simp({"shl": lambda x, y: x << y, "lshr": z3.LShR, "ashr": lambda x, y: x >> y}[op](A, Bv))
        if conc:
            return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
        A, Bv = Z(a, w), Z(b, w)
        return simp({"and": A & Bv, "or": A | Bv, "xor": A ^ Bv}[op])

    def cast(self, st, op, ft, tt, v):
        ft, tt = self.m.res(ft), self.m.res(tt)
        if op == "bitcast" or op == "addrspacecast":
            if ft.k == tt.k:
                return v
            raise EngineError("bitcast")
        if op == "ptrtoint":
            r = self.ptr_int(st, v)
            if tt.a < 64:
                return self.cast(st, "trunc", ir.ity(64), tt, r)
            return r
        if op == "inttoptr":
            return self.int_ptr(st, v)
        if op in ("trunc", "zext", "sext"):
            if tt.k == "vec":
                raise EngineError("vector")
            a, b = ft.a, tt.a
            if op == "trunc":
                if b == 1:
                    if isinstance(v, int):
                        return bool(v & 1)
                    return simp(z3.Extract(0, 0, v) == 1)
                if isinstance(v, int):
                    return v & mask(b)
                return simp(z3.Extract(b - 1, 0, v))
            if a == 1:
                if isinstance(v, bool):
                    return (mask(b) if op == "sext" else 1) if v else 0
                return z3.If(v, Z(mask(b) if op == "sext" else 1, b), Z(0, b))
            if isinstance(v, int):
                return v if op == "zext" else sgn(v, a) & mask(b)
            return simp(z3.ZeroExt(b - a, v) if op == "zext" else z3.SignExt(b - a, v))
        if op in ("uitofp", "sitofp"):
            if isinstance(v, int):
                return FP(float(sgn(v, ft.a) if op == "sitofp" else v))
            return FP(self.fresh(64, "fp"))
        if op in ("fpext", "fptrunc"):
            return v
        if op in ("fptoui", "fptosi"):
            if isinstance(v.v, float):
                return int(v.v) & mask(tt.a)
            return self.fresh(tt.a, "fp")
        raise EngineError("cast " + op)

    def icmp(self, st, pred, ty, a, b):
        ty = self.m.res(ty)
        if ty.k == "ptr":
            return self.pcmp(st, pred, a, b)
        w = ty.a
        if w == 1:
            if isinstance(a, bool) and isinstance(b, bool):
                x = a == b
            else:
                x = simp(ZB(a) == ZB(b))
            if pred == "eq":
                return x
            if pred == "ne":
                return lnot(x)
            A = z3.If(ZB(a), Z(1, 8), Z(0, 8))
            Bv = z3.If(ZB(b), Z(1, 8), Z(0, 8))
            return self.icmp(st, pred, ir.ity(8), A, Bv)
        if self.cmp_hook is not None:
            self.cmp_hook(pred, a, b, w)
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = sgn(a, w), sgn(b, w)
            return {"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b,
                    "slt": sa < sb, "sle": sa <= sb, "sgt": sa > sb, "sge": sa >= sb}[pred]
        A, Bv = Z(a, w), Z(b, w)
        return simp({"eq": lambda: A == Bv, "ne": lambda: A != Bv, "ult": lambda: z3.ULT(A, Bv),
                     "ule": lambda: z3.ULE(A, Bv), "ugt": lambda: z3.UGT(A, Bv), "uge": lambda: z3.UGE(A, Bv),
                     "slt": lambda: A < Bv, "sle": lambda: A <= Bv, "sgt": lambda: A > Bv,
                     "sge": lambda: A >= Bv}[pred]())

    def pcmp(self, st, pred, a, b):
        if isinstance(a, PIte):
            x, y = self.pcmp(st, pred, a.a, b), self.pcmp(st, pred, a.b, b)
            return simp(z3.If(a.c, ZB(x), ZB(y)))
        if isinstance(b, PIte):
            x, y = self.pcmp(st, pred, a, b.a), self.pcmp(st, pred, a, b.b)
            return simp(z3.If(b.c, ZB(x), ZB(y)))
        if a is UNDEF or b is UNDEF:
            return self.fresh(1, "undef")
        if a.o == b.o:
            if self.cmp_hook is not None:
                self.cmp_hook(pred, a.off, b.off, 64)
            return self._cmp64(pred, a.off, b.off)
        if pred in ("eq", "ne"):
            e = self._peq(st, a, b)
            return e if pred == "eq" else lnot(e)
        return self._cmp64(pred, self.ptr_int(st, a), self.ptr_int(st, b))

    def _cmp64(self, pred, x, y):
        if pred in ("eq", "ne"):
            e = eq(x, y)
            return e if pred == "eq" else lnot(e)
        if pred == "ult":
            return ult(x, y)
        if pred == "ule":
            return ule(x, y)
        if pred == "ugt":
            return ult(y, x)
        if pred == "uge":
            return ule(y, x)
        A, Bv = Z(x, 64), Z(y, 64)
        return simp({"slt": A < Bv, "sle": A <= Bv, "sgt": A > Bv, "sge": A >= Bv}[pred])

    def _strict(self, st, p):
        """pointer known to point strictly inside its object"""
        o = st.mem[p.o]
        if isinstance(p.off, int) and isinstance(o.size, int):
            return p.off < max(o.size, 1)
        if isinstance(p.off, int) and p.off == 0:
            return True
        return False

    def _peq(self, st, a, b):
        if a.o is None or b.o is None:
            n, p = (a, b) if a.o is None else (b, a)
            if isinstance(n.off, int) and n.off == 0:
                # object pointers are not null (offset arithmetic that wraps to null is excluded)
                return False
            return eq(n.off, self.ptr_int(st, p))
        oa, ob = st.mem[a.o], st.mem[b.o]
        if oa.alive and ob.alive and self._strict(st, a) and self._strict(st, b):
            return False
        if oa.alive and ob.alive:
            ca = ult(a.off, oa.size)
            cb = ult(b.off, ob.size)
            if self.valid(st, land(ca, cb)):
                return False
        return eq(self.ptr_int(st, a), self.ptr_int(st, b))

    # -------------------------------------------------------------------------------------------- execution
    def val(self, st, fr, x):
        if x.__class__ is Local:
            return fr.regs[x.n]
        return self.const(st, x)

    def start(self, fname, st=None):
        f = self.m.funcs.get(fname)
        if f is None or f.declared:
            raise EngineError("no such contract " + fname)
        ir.materialise(self.m, f)
        st = st or State()
        st.frames.append(Frame(f))
        self.used_funcs.add(f.name)
        return st

    def run(self, fname):
        self.work = [self.start(fname)]
        try:
            while self.work:
                self.run_path(self.work.pop())
        except StopRun:
            pass

    def run_region(self, states):
        """run the given states until each has ended or has been captured by a loop context"""
        saved, self.work = self.work, list(states)
        try:
            while self.work:
                self.run_path(self.work.pop())
        finally:
            self.work = saved

    def run_path(self, st):
        self.paths += 1
        if self.paths > self.opts["max_paths"]:
            raise EngineError("too many paths")
        try:
            p = st.pending
            if p is not None:
                st.pending = None
                if p == "unwind":
                    self.unwind(st)
                else:
                    self.goto(st, st.top(), p)
            while st.frames:
                self.step(st)
            if not self.quiet:
                self.covers["end"] = self.covers.get("end", 0) + 1
        except PathEnd:
            pass

    def step(self, st):
        fr = st.frames[-1]
        blk = fr.f.blocks[fr.b]
        ins = blk.insts[fr.i]
        self.steps += 1
        if self.opts["deadline"] and self.steps & 255 == 0 and time.time() > self.opts["deadline"]:
            raise Deadline()
        getattr(self, "i_" + ins.op)(st, fr, ins)

    # control
    def goto(self, st, fr, to):
        frm = fr.b
        known = False
        while fr.loops:
            c = fr.loops[-1]
            if c.mode == "merge":
                if to == c.header:
                    fr.loops = fr.loops[:-1]
                    self.enter_block(st, fr, frm, to)
                    c.arrived.append(st)
                    raise PathEnd("join")
                for d in reversed(fr.loops):
                    if d.mode != "merge":
                        break
                else:
                    break
                if to in d.body and to != d.header:
                    break
                fr.loops = fr.loops[:-1]
                st.pending = to
                c.exits.append(st)
                raise PathEnd("left region")
            if to not in c.body:
                fr.loops = fr.loops[:-1]
                if c.captures:
                    st.pending = to
                    c.exits.append(st)
                    raise PathEnd("left loop")
                continue
            if to == c.header:
                known = True
                c.backedge(self, st, fr, frm)      # may raise PathEnd
            break
        if not known and to in fr.f.loops:
            loops.enter(self, st, fr, frm, to)     # may raise PathEnd after queueing the states that leave the loop
        self.enter_block(st, fr, frm, to)

    def enter_block(self, st, fr, frm, to):
        b = fr.f.blocks[to]
        if b.phis:
            vals = []
            for ph in b.phis:
                vals.append((ph.dst, self.val(st, fr, ph.a[frm])))
            for d, v in vals:
                fr.regs[d] = v
        fr.prev, fr.b, fr.i = frm, to, 0

    def i_br(self, st, fr, ins):
        a = ins.a
        if len(a) == 1:
            return self.goto(st, fr, a[0])
        c = self.val(st, fr, a[0])
        rs = self.branch(st, c)
        if len(rs) == 2:
            if fr.loops:
                self.loop_decision(fr, a[1:])
            join = self.join_point(fr)
            if join is not None:
                self.fork_goto_join(rs, a, join)
            self.fork_goto(rs[1][0], a[2])
        s, t = rs[0]
        self.goto(s, s.top(), a[1] if t else a[2])

    def join_point(self, fr):
        """block at which the two sides of a branch meet again, if they can be merged there"""
        p = fr.f.ipdom.get(fr.b)
        if p is None or p in fr.f.loops:
            return None
        for c in reversed(fr.loops):
            if c.mode == "merge":
                if c.header == p:
                    return None         # the enclosing region merges there
                continue
            if p not in c.body:
                return None
            break
        return p

    def fork_goto_join(self, rs, a, join):
        """run both sides up to the join point and merge what arrives there"""
        m = merge.Join(join)
        for s, t in rs:
            f = s.top()
            f.loops = f.loops + (m,)
            s.pending = a[1] if t else a[2]
        self.run_region([rs[1][0], rs[0][0]])
        self.work.extend(m.exits)
        self.work.extend(merge.fold(self, m.arrived))
        raise PathEnd("joined")

    def loop_decision(self, fr, targets):
        """symbolic decision: if it decides about leaving a loop tried concretely, switch that loop to invariants"""
        for cx in fr.loops:
            if cx.mode == "try":
                ins = [t in cx.body for t in targets]
                if any(ins) and not all(ins):
                    raise loops.NeedInvariant(cx)

    def fork_goto(self, o, to):
        o.pending = to
        self.work.append(o)

    def i_switch(self, st, fr, ins):
        v, d, cases = ins.a
        w = ins.ty.a
        x = self.val(st, fr, v)
        if isinstance(x, int):
            for c, l in cases:
                if c == x:
                    return self.goto(st, fr, l)
            return self.goto(st, fr, d)
        rest = []
        if fr.loops:
            self.loop_decision(fr, [l for c, l in cases] + [d])
        for c, l in cases:
            cond = eq(x, c, w)
            if self.feasible(st, cond):
                o = st.fork()
                o.pc.append(ZB(cond))
                self.fork_goto(o, l)
            rest.append(lnot(cond))
        self.assume(st, land(*rest))
        self.goto(st, st.top(), d)

    def i_unreachable(self, st, fr, ins):
        self.oblige(st, False, "control", "unreachable code is not reached")
        raise PathEnd("unreachable")

    def i_ret(self, st, fr, ins):
        if fr.loops:
            self.leave_by_return(st, fr)
        v = self.val(st, fr, ins.a[0]) if ins.a[0] is not None else None
        self.pop_frame(st)
        if not st.frames:
            return
        fr2 = st.frames[-1]
        call = fr.ret_inst
        self.finish_call(st, fr2, call, v)

    def leave_by_return(self, st, fr, pending=None):
        while fr.loops:
            c = fr.loops[-1]
            fr.loops = fr.loops[:-1]
            if c.captures:
                st.pending = pending
                c.exits.append(st)
                raise PathEnd("left loop")

    def finish_call(self, st, fr, call, v):
        if call.dst is not None:
            fr.regs[call.dst] = v
        if call.op == "invoke":
            self.goto(st, fr, call.a["normal"])
        else:
            fr.i += 1

    def pop_frame(self, st):
        fr = st.frames.pop()
        for oid in fr.allocas:
            st.wobj(oid).alive = False
            st.addr.pop(oid, None)

    # calls
    def i_call(self, st, fr, ins):
        callee = ins.a["callee"]
        if callee.__class__ is Const and callee.k == "global":
            name = callee.v
            if name in self.m.aliases:
                tgt = self.m.aliases[name]
                name = tgt.v
        else:
            p = self.val(st, fr, callee)
            if isinstance(p, PIte):
                rs = self.branch(st, p.c)
                if len(rs) == 2:
                    self.work.append(rs[1][0])
                p = p.a if rs[0][1] else p.b
                while isinstance(p, PIte):
                    rs = self.branch(st, p.c)
                    if len(rs) == 2:
                        self.work.append(rs[1][0])
                    p = p.a if rs[0][1] else p.b
            if p is UNDEF or p.o is None:
                self.oblige(st, False, "call", "call through a valid function pointer")
                raise PathEnd("bad call")
            o = st.mem[p.o]
            if o.func is None:
                self.oblige(st, False, "call", "call through a valid function pointer")
                raise PathEnd("bad call")
            name = o.func
        args = []
        for t, x, at in ins.a["args"]:
            if x is None:
                args.append(None)
                continue
            args.append(self.val(st, fr, x))
        self.call(st, fr, ins, name, args)

    i_invoke = i_call

    def call(self, st, fr, ins, name, args):
        h = self.builtins.get(name)
        if h is None:
            for pre, hh in self.builtin_prefix:
                if name.startswith(pre):
                    h = hh
                    break
        if h is not None:
            r = h(self, st, fr, ins, args, name)
            if r is self.B.HANDLED:
                return
            if r is not self.B.DECLINED:
                return self.finish_call(st, st.frames[-1], ins, r)
        f = self.m.funcs.get(name)
        if f is None or f.declared:
            raise EngineError("call of unmodelled external function " + name)
        ir.materialise(self.m, f)
        self.used_funcs.add(name)
        if len(st.frames) > 200:
            raise EngineError("recursion too deep in " + name)
        nf = Frame(f)
        nf.ret_inst = ins
        for (pn, pt, at), v, (ct, cx, cat) in zip(f.params, args, ins.a["args"]):
            if "byval" in at:
                t = at["byval"]
                n = self.m.size(t)
                oid = self.new_obj(st, n, max(8, self.m.align(t)), "stack", pn)
                nf.allocas.append(oid)
                self.memcpy(st, Ptr(oid, 0), v, n)
                v = Ptr(oid, 0)
            nf.regs[pn] = v
        st.frames.append(nf)

    # exceptions
    def throw(self, st, ti, ptr):
        """start unwinding from the current (already popped to the throwing call) frame"""
        st.exc = (ti, ptr)
        self.unwind(st)

    def unwind(self, st):
        # st.frames[-1] is a frame whose current instruction is a call/invoke that threw
        while st.frames:
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.b].insts[fr.i]
            if ins.op == "invoke":
                lp = fr.f.blocks[ins.a["unwind"]].insts[0]
                sel = self.lp_match(st, lp)
                if sel is not None:
                    self.goto(st, fr, ins.a["unwind"])
                    return
            if fr.loops:
                self.leave_by_return(st, fr, "unwind")
            self.pop_frame(st)
        self.oblige(st, False, "exception", "no exception escapes the contract")
        raise PathEnd("uncaught")

    def lp_match(self, st, lp):
        cleanup, clauses = lp.a
        ti = st.exc[0]
        for k, c in clauses:
            if k == "catch":
                if c.k == "null":
                    return -1
                if self.B.ti_matches(self, ti, c.v):
                    return self.typeid(c.v)
            else:
                # filter: matches when the type is not listed
                lst = c.v if c.k == "agg" else []
                if not any(self.B.ti_matches(self, ti, x.v) for x in lst):
                    return -2
        if cleanup:
            return 0
        return None

    def typeid(self, n):
        if n not in self.typeids:
            self.typeids[n] = len(self.typeids) + 1
        return self.typeids[n]

    def i_landingpad(self, st, fr, ins):
        sel = self.lp_match(st, ins)
        if sel == -1:
            sel = 0x7fffffff
        fr.regs[ins.dst] = [st.exc[1], sel & 0xffffffff]
        fr.i += 1

    def i_resume(self, st, fr, ins):
        if fr.loops:
            self.leave_by_return(st, fr)
        self.pop_frame(st)
        self.unwind(st)

    # plain instructions
    def i_alloca(self, st, fr, ins):
        cnt, al = ins.a
        n = self.m.size(ins.ty)
        if cnt is not None:
            c = self.val(st, fr, cnt[1])
            if not isinstance(c, int):
                raise EngineError("dynamic alloca")
            n *= c
        oid = self.new_obj(st, n, al or self.m.align(ins.ty), "stack", ins.dst)
        fr.allocas.append(oid)
        fr.regs[ins.dst] = Ptr(oid, 0)
        fr.i += 1

    def aligned(self, st, p, al, what):
        """obligation: an access at p has the alignment its type demands"""
        if isinstance(p, PIte):
            for c, q in ((p.c, p.a), (lnot(p.c), p.b)):
                if self.feasible(st, c):
                    s = st.fork()
                    s.pc.append(ZB(c))
                    self.aligned(s, q, al, what)
            return
        if not isinstance(p, Ptr) or p.o is None:
            return
        o = st.mem[p.o]
        if o.misalign is None and (o.align or 1) >= al and isinstance(p.off, int):
            ok = p.off % al == 0
        else:
            ok = simp((Z(self.ptr_int(st, p), 64) & Z(al - 1, 64)) == 0)
        self.oblige(st, ok, "memory", what + " is aligned")

    def i_load(self, st, fr, ins):
        if self.check_align and ins.align > 1:
            self.aligned(st, self.val(st, fr, ins.a[0]), ins.align, "read")
        fr.regs[ins.dst] = self.load(st, self.val(st, fr, ins.a[0]), ins.ty)
        fr.i += 1

    def i_store(self, st, fr, ins):
        v = self.val(st, fr, ins.a[0])
        p = self.val(st, fr, ins.a[1])
        if isinstance(p, PIte):
            rs = self.branch(st, p.c)
            if len(rs) == 2:
                self.work.append(rs[1][0])
            st = rs[0][0]
            p = p.a if rs[0][1] else p.b
            if isinstance(p, PIte):
                # nested: re-execute with the outer choice already decided by the path condition
                while isinstance(p, PIte):
                    rs = self.branch(st, p.c)
                    if len(rs) == 2:
                        self.work.append(rs[1][0])
                    p = p.a if rs[0][1] else p.b
        if self.check_align and ins.align > 1:
            self.aligned(st, p, ins.align, "write")
        self.store(st, p, ins.ty, v)
        fr.i += 1

    def i_getelementptr(self, st, fr, ins):
        bt, base, idx = ins.a
        fr.regs[ins.dst] = self.gep(st, bt, self.val(st, fr, base), [(t, self.val(st, fr, x)) for t, x in idx])
        fr.i += 1

    def i_icmp(self, st, fr, ins):
        pred, t, a, b = ins.a
        fr.regs[ins.dst] = self.icmp(st, pred, t, self.val(st, fr, a), self.val(st, fr, b))
        fr.i += 1

    def i_fcmp(self, st, fr, ins):
        pred, t, a, b = ins.a
        x, y = self.val(st, fr, a), self.val(st, fr, b)
        if not (isinstance(x.v, float) and isinstance(y.v, float)):
            raise EngineError("symbolic floating point")
        r = {"oeq": x.v == y.v, "une": x.v != y.v, "olt": x.v < y.v, "ole": x.v <= y.v, "ogt": x.v > y.v,
             "oge": x.v >= y.v}.get(pred)
        if r is None:
            raise EngineError("fcmp")
        fr.regs[ins.dst] = r
        fr.i += 1

    def i_select(self, st, fr, ins):
        c, a, b = (self.val(st, fr, x) for x in ins.a)
        ty = self.m.res(ins.ty)
        if isinstance(c, bool):
            r = a if c else b
        elif ty.k == "int" and ty.a == 1:
            r = simp(z3.If(c, ZB(a), ZB(b)))
        elif ty.k == "int":
            r = ite(c, a, b, ty.a)
        elif ty.k == "ptr":
            r = a if same(a, b) else pite(c, a, b)
        else:
            rs = self.branch(st, c)
            if len(rs) == 2:
                self.work.append(rs[1][0])
            r = a if rs[0][1] else b
        fr.regs[ins.dst] = r
        fr.i += 1

    def i_freeze(self, st, fr, ins):
        fr.regs[ins.dst] = self.val(st, fr, ins.a[0])
        fr.i += 1

    def i_extractvalue(self, st, fr, ins):
        v = self.val(st, fr, ins.a[0])
        for i in ins.a[1]:
            v = v[i]
        fr.regs[ins.dst] = v
        fr.i += 1

    def i_insertvalue(self, st, fr, ins):
        v = self.val(st, fr, ins.a[0])
        e = self.val(st, fr, ins.a[1])

        def upd(x, idx):
            x = list(x)
            if len(idx) == 1:
                x[idx[0]] = e
            else:
                x[idx[0]] = upd(x[idx[0]], idx[1:])
            return x
        fr.regs[ins.dst] = upd(v, ins.a[2])
        fr.i += 1

    def i_atomicrmw(self, st, fr, ins):
        op, p, v = ins.a
        p, v = self.val(st, fr, p), self.val(st, fr, v)
        old = self.load(st, p, ins.ty)
        if op == "xchg":
            new = v
        elif op in ("add", "sub", "and", "or", "xor"):
            new = self.binop(st, op, ins.ty, old, v, ())
        else:
            raise EngineError("atomicrmw " + op)
        self.store(st, p, ins.ty, new)
        fr.regs[ins.dst] = old
        fr.i += 1

    def i_cmpxchg(self, st, fr, ins):
        p, c, v = (self.val(st, fr, x) for x in ins.a)
        old = self.load(st, p, ins.ty)
        e = self.icmp(st, "eq", ins.ty, old, c)
        rs = self.branch(st, e)
        if len(rs) == 2:
            self.work.append(rs[1][0])
        if rs[0][1]:
            self.store(st, p, ins.ty, v)
        fr.regs[ins.dst] = [old, rs[0][1]]
        fr.i += 1

    def __getattr__(self, name):
        if name.startswith("i_"):
            op = name[2:]
            if op in ir.BINOPS:
                def h(st, fr, ins, op=op):
                    a, b, fl = ins.a
                    fr.regs[ins.dst] = self.binop(st, op, self.m.res(ins.ty), self.val(st, fr, a),
                                                  self.val(st, fr, b), fl)
                    fr.i += 1
                return h
            if op in ir.CASTS:
                def h(st, fr, ins, op=op):
                    ft, a = ins.a
                    fr.regs[ins.dst] = self.cast(st, op, ft, ins.ty, self.val(st, fr, a))
                    fr.i += 1
                return h
            raise EngineError("instruction " + op)
        raise AttributeError(name)


class StopRun(Exception):
    pass


class Deadline(Exception):
    pass
