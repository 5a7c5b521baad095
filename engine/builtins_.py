"""External functions by contract: LLVM intrinsics, the C++ runtime, libc, and the vp_* specification primitives."""
import z3
import ir
from sym import *

HANDLED = object()
DECLINED = object()      # not for this call: execute the function itself
TABLE = {}
PREFIX = []


def bi(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def prefix(p):
    def d(f):
        PREFIX.append((p, f))
        return f
    return d


def cstr(ex, st, p):
    o = st.mem[p.o]
    out = []
    i = p.off
    while True:
        b = ex._byte_at(st, o, i)
        if b is None or b == 0:
            break
        out.append(chr(b))
        i += 1
    return "".join(out)


# ----------------------------------------------------------------------------------------------- spec primitives
def nondet(w, signed=False):
    def f(ex, st, fr, ins, a, name):
        nm = cstr(ex, st, a[0])
        i = st.names.get(nm, 0)
        st.names[nm] = i + 1
        if w == 1:
            v = z3.Bool("in_%s_%d" % (nm, i))
        else:
            v = z3.BitVec("in_%s_%d" % (nm, i), w)
        st.trace.append((nm, w, v, None))
        b = ex.opts.get("size_bound")
        if b is not None and name == "vp_nondet_size":
            st.pc.append(z3.ULE(v, Z(b, 64)))
        return v
    return f


TABLE["vp_nondet_bool"] = nondet(1)
TABLE["vp_nondet_u8"] = nondet(8)
TABLE["vp_nondet_u16"] = nondet(16)
TABLE["vp_nondet_u32"] = nondet(32)
TABLE["vp_nondet_u64"] = nondet(64)
TABLE["vp_nondet_size"] = nondet(64)


def tobool(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v != 0
    if z3.is_bool(v):
        return v
    return simp(v != 0)


@bi("vp_choose")
def vp_choose(ex, st, fr, ins, a, name):
    """case split: returns 0..n-1, one path each"""
    nm = cstr(ex, st, a[1])
    i = st.names.get(nm, 0)
    st.names[nm] = i + 1
    v = z3.BitVec("in_%s_%d" % (nm, i), 32)
    n = a[0]
    if not isinstance(n, int):
        raise EngineError("vp_choose")
    st.trace.append((nm, 32, v, None))
    for c in range(1, n):
        o = st.fork()
        o.pc.append(v == c)
        ex_finish(ex, o, ins, c)
        ex.work.append(o)
    st.pc.append(v == 0)
    return 0


def ex_finish(ex, st, ins, v):
    fr = st.top()
    if ins.dst is not None:
        fr.regs[ins.dst] = v
    if ins.op == "invoke":
        st.pending = ins.a["normal"]
    else:
        fr.i += 1


@bi("vp_assume")
def vp_assume(ex, st, fr, ins, a, name):
    ex.assume(st, tobool(a[0]))


@bi("vp_assert")
def vp_assert(ex, st, fr, ins, a, name):
    ex.oblige(st, tobool(a[0]), "assert", cstr(ex, st, a[1]))


@bi("vp_cover")
def vp_cover(ex, st, fr, ins, a, name):
    if ex.quiet:
        return
    l = cstr(ex, st, a[0])
    if ex.covers.get(l):
        ex.covers[l] += 1
        return
    r = ex.solver.check(st.pc)
    if r == "sat":
        ex.covers[l] = ex.covers.get(l, 0) + 1


@bi("vp_hint")
def vp_hint(ex, st, fr, ins, a, name):
    if is_sym(a[0]):
        st.hints.append(a[0])


@bi("vp_hint_ptr")
def vp_hint_ptr(ex, st, fr, ins, a, name):
    if isinstance(a[0], Ptr) and is_sym(a[0].off):
        st.hints.append(a[0].off)


@bi("vp_is_proof")
def vp_is_proof(ex, st, fr, ins, a, name):
    return True


@bi("vp_split")
def vp_split(ex, st, fr, ins, a, name):
    """case split on a boolean"""
    c = tobool(a[0])
    rs = ex.branch(st, c)
    if len(rs) == 2:
        o = rs[1][0]
        ex_finish(ex, o, ins, False)
        ex.work.append(o)
    return rs[0][1]


MAXOBJ = 1 << 56


@bi("vp_alloc")
def vp_alloc(ex, st, fr, ins, a, name):
    """fresh block of a[0] bytes at an address = a[1] modulo 4096 (any address when a[1] == -1), undefined content"""
    size, mis = a[0], a[1]
    if not isinstance(size, int):
        ex.assume(st, z3.ULE(size, Z(MAXOBJ, 64)))
    elif size > MAXOBJ:
        raise PathEnd("object too large")
    oid = ex.new_obj(st, size, 1, "heap", "block")
    o = st.mem[oid]
    if isinstance(mis, int) and mis == mask(64):
        o.align = 1
    else:
        o.misalign = mis
    return Ptr(oid, 0)


@bi("vp_alloc_aligned")
def vp_alloc_aligned(ex, st, fr, ins, a, name):
    size, al = a[0], a[1]
    if not isinstance(size, int):
        ex.assume(st, z3.ULE(size, Z(MAXOBJ, 64)))
    elif size > MAXOBJ:
        raise PathEnd("object too large")
    oid = ex.new_obj(st, size, 1, "heap", "block")
    o = st.mem[oid]
    if isinstance(al, int):
        o.align = al
    else:
        b = ex.addr_of(st, oid)
        st.pc.append((b & (Z(al, 64) - 1)) == 0)
    return Ptr(oid, 0)


@bi("vp_havoc")
def vp_havoc(ex, st, fr, ins, a, name):
    """give the bytes of a block arbitrary (but fixed) contents, part of the input"""
    p, n = a[0], a[1]
    nm = cstr(ex, st, a[2])
    i = st.names.get(nm, 0)
    st.names[nm] = i + 1
    if not isinstance(p, Ptr) or p.o is None:
        raise EngineError("vp_havoc")
    o = st.wobj(p.o)
    if p.off != 0 or not same(simp(n), simp(o.size)) and not ex.valid(st, eq(n, o.size)):
        raise EngineError("vp_havoc of a part of an object")
    arr = z3.Array("in_%s_%d" % (nm, i), z3.BitVecSort(64), z3.BitVecSort(8))
    o.cells, o.log, o.init = {}, None, arr
    st.trace.append((nm, ("array", n), arr, None))


@bi("vp_free")
def vp_free(ex, st, fr, ins, a, name):
    p = a[0]
    if isinstance(p, PIte):
        rs = ex.branch(st, p.c)
        if len(rs) == 2:
            ex.work.append(rs[1][0])
        p = p.a if rs[0][1] else p.b
    if not isinstance(p, Ptr) or p.o is None:
        ex.oblige(st, False, "memory", "release of a valid block")
        raise PathEnd("bad free")
    o = st.mem[p.o]
    ex.oblige(st, land(o.alive, eq(p.off, 0)), "memory", "release of a live block by its start")
    o = st.wobj(p.o)
    o.alive = False
    st.addr.pop(p.o, None)


def by_leaf(f, p):
    """a boolean function of a pointer, case by case"""
    if isinstance(p, PIte):
        a, b = by_leaf(f, p.a), by_leaf(f, p.b)
        return a if a is b else simp(z3.If(p.c, ZB(a), ZB(b)))
    return f(p)


@bi("vp_size_of")
def vp_size_of(ex, st, fr, ins, a, name):
    """size of the block a pointer points into (0 if none)"""
    p = a[0]
    if isinstance(p, PIte):
        raise EngineError("vp_size_of")
    if isinstance(p, Ptr) and p.o is not None and st.mem[p.o].alive:
        return st.mem[p.o].size
    return 0


@bi("vp_live")
def vp_live(ex, st, fr, ins, a, name):
    """true iff [p, p+n) lies inside one live object"""
    n = a[1]

    def f(p):
        if not isinstance(p, Ptr) or p.o is None or not st.mem[p.o].alive:
            return False
        o = st.mem[p.o]
        return simp(z3.And(z3.ULE(Z(n, 64), Z(o.size, 64)), z3.ULE(Z(p.off, 64), Z(o.size, 64) - Z(n, 64))))
    return by_leaf(f, a[0])


@bi("vp_same_object")
def vp_same_object(ex, st, fr, ins, a, name):
    def f(p):
        def g(q):
            return isinstance(p, Ptr) and isinstance(q, Ptr) and p.o is not None and p.o == q.o
        return by_leaf(g, a[1])
    return by_leaf(f, a[0])


@bi("vp_print")
def vp_print(ex, st, fr, ins, a, name):
    if ex.opts.get("verbose"):
        print("vp_print", cstr(ex, st, a[0]), a[1], [str(c) for c in st.pc[-3:]])


# ----------------------------------------------------------------------------------------------------- intrinsics
def nop(ex, st, fr, ins, a, name):
    return None


for _p in ("llvm.dbg.", "llvm.lifetime.", "llvm.experimental.noalias", "llvm.prefetch", "llvm.donothing",
           "llvm.var.annotation", "llvm.invariant."):
    PREFIX.append((_p, nop))


@prefix("llvm.memcpy.")
@prefix("llvm.memmove.")
def i_memcpy(ex, st, fr, ins, a, name):
    d, s = a[0], a[1]
    if isinstance(d, PIte) or isinstance(s, PIte):
        d, s = depite(ex, st, d), depite(ex, st, s)
    if name.startswith("llvm.memcpy.") and isinstance(d, Ptr) and isinstance(s, Ptr) and d.o == s.o and d.o is not None:
        n = a[2]
        if not (isinstance(d.off, int) and isinstance(s.off, int) and d.off == s.off):
            D, S, N = Z(d.off, 64), Z(s.off, 64), Z(n, 64)
            ex.oblige(st, simp(z3.Or(D == S, N == 0, z3.ULE(D + N, S), z3.ULE(S + N, D))), "memory",
                      "memcpy regions do not overlap")
    ex.memcpy(st, d, s, a[2])


def depite(ex, st, p):
    while isinstance(p, PIte):
        rs = ex.branch(st, p.c)
        if len(rs) == 2:
            ex.work.append(rs[1][0])
        p = p.a if rs[0][1] else p.b
    return p


@bi("memcpy", "memmove")
def f_memcpy(ex, st, fr, ins, a, name):
    i_memcpy(ex, st, fr, ins, a, "llvm." + name + ".")
    return a[0]


@prefix("llvm.memset.")
def i_memset(ex, st, fr, ins, a, name):
    ex.memset(st, depite(ex, st, a[0]), a[1], a[2])


@bi("memset")
def f_memset(ex, st, fr, ins, a, name):
    v = a[1]
    v = v & 255 if isinstance(v, int) else simp(z3.Extract(7, 0, v))
    ex.memset(st, depite(ex, st, a[0]), v, a[2])
    return a[0]


@prefix("llvm.expect.")
def i_expect(ex, st, fr, ins, a, name):
    return a[0]


@prefix("llvm.assume")
def i_assume(ex, st, fr, ins, a, name):
    ex.oblige(st, tobool(a[0]), "control", "llvm.assume holds")


@prefix("llvm.launder.")
@prefix("llvm.strip.")
def i_launder(ex, st, fr, ins, a, name):
    return a[0]


@prefix("llvm.is.constant")
def i_isconst(ex, st, fr, ins, a, name):
    return False


@prefix("llvm.objectsize")
def i_objsize(ex, st, fr, ins, a, name):
    return mask(64)


def width(ins):
    t = ins.ty
    return t.a


def overflow(op):
    def f(ex, st, fr, ins, a, name):
        x, y = a
        w = int(name.rsplit(".i", 1)[1])
        signed = name.startswith("llvm.s")
        if isinstance(x, int) and isinstance(y, int):
            if signed:
                x2, y2 = sgn(x, w), sgn(y, w)
            else:
                x2, y2 = x, y
            r = {"add": x2 + y2, "sub": x2 - y2, "mul": x2 * y2}[op]
            ok = -(1 << (w - 1)) <= r < (1 << (w - 1)) if signed else 0 <= r < (1 << w)
            return [r & mask(w), not ok]
        X, Y = Z(x, w), Z(y, w)
        ext = z3.SignExt if signed else z3.ZeroExt
        X2, Y2 = ext(w, X), ext(w, Y)
        r2 = {"add": X2 + Y2, "sub": X2 - Y2, "mul": X2 * Y2}[op]
        r = {"add": X + Y, "sub": X - Y, "mul": X * Y}[op]
        if op == "mul" and not signed and (isinstance(x, int) or isinstance(y, int)):
            c, v = (x, Y) if isinstance(x, int) else (y, X)
            ov = z3.BoolVal(False) if c == 0 else z3.UGT(v, Z(mask(w) // c, w))
        elif not signed and op == "add":
            ov = z3.ULT(r, X)
        elif not signed and op == "sub":
            ov = z3.ULT(X, Y)
        else:
            ov = ext(w, r) != r2
        return [simp(r), simp(ov)]
    return f


for _o in ("add", "sub", "mul"):
    for _s in ("u", "s"):
        PREFIX.append(("llvm.%s%s.with.overflow." % (_s, _o), overflow(_o)))


@prefix("llvm.umin.")
@prefix("llvm.umax.")
@prefix("llvm.smin.")
@prefix("llvm.smax.")
def i_minmax(ex, st, fr, ins, a, name):
    x, y = a
    w = int(name.rsplit(".i", 1)[1])
    k = name[5:9]
    ty = ir.ity(w)
    c = ex.icmp(st, {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[k], ty, x, y)
    return ite(c, x, y, w)


@prefix("llvm.abs.")
def i_abs(ex, st, fr, ins, a, name):
    w = int(name.rsplit(".i", 1)[1])
    x = a[0]
    if isinstance(x, int):
        return abs(sgn(x, w)) & mask(w)
    return z3.If(x < 0, -x, x)


@prefix("llvm.trap")
@prefix("llvm.ubsantrap")
def i_trap(ex, st, fr, ins, a, name):
    ex.oblige(st, False, "control", "trap is not reached")
    raise PathEnd("trap")


@prefix("llvm.eh.typeid.for")
def i_typeid(ex, st, fr, ins, a, name):
    return ex.typeid(st.mem[a[0].o].name)


@prefix("llvm.uadd.sat.")
def i_uaddsat(ex, st, fr, ins, a, name):
    w = int(name.rsplit(".i", 1)[1])
    r = add(a[0], a[1], w)
    return ite(ult(r, a[0], w), mask(w), r, w)


@prefix("llvm.usub.sat.")
def i_usubsat(ex, st, fr, ins, a, name):
    w = int(name.rsplit(".i", 1)[1])
    return ite(ult(a[0], a[1], w), 0, sub(a[0], a[1], w), w)


@prefix("llvm.ctpop.")
def i_ctpop(ex, st, fr, ins, a, name):
    w = int(name.rsplit(".i", 1)[1])
    x = a[0]
    if isinstance(x, int):
        return bin(x).count("1")
    r = Z(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
    return simp(r)


@prefix("llvm.ctlz.")
@prefix("llvm.cttz.")
def i_ctz(ex, st, fr, ins, a, name):
    w = int(name.rsplit(".i", 1)[1])
    lead = name.startswith("llvm.ctlz")
    x = a[0]
    if isinstance(x, int):
        for i in range(w):
            if (x >> (w - 1 - i if lead else i)) & 1:
                return i
        return w
    r = Z(w, w)
    for i in range(w):
        # least priority first
        bit = i if lead else w - 1 - i
        r = z3.If(z3.Extract(bit, bit, x) == 1, Z(w - 1 - bit if lead else bit, w), r)
    return simp(r)


@prefix("llvm.fshl.")
def i_fshl(ex, st, fr, ins, a, name):
    w = int(name.rsplit(".i", 1)[1])
    x, y, s = (Z(v, w) for v in a)
    s = z3.URem(s, Z(w, w))
    return simp(z3.If(s == 0, x, (x << s) | z3.LShR(y, Z(w, w) - s)))


@prefix("llvm.bswap.")
def i_bswap(ex, st, fr, ins, a, name):
    w = int(name.rsplit(".i", 1)[1])
    bs = ex.tobytes(st, a[0], w // 8)
    return ex.frombytes(list(reversed(bs)))


# -------------------------------------------------------------------------------------------------- C++ runtime
PARENTS = {
    "_ZTISt9bad_alloc": "_ZTISt9exception", "_ZTISt12length_error": "_ZTISt11logic_error",
    "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc",
    "_ZTISt12out_of_range": "_ZTISt11logic_error", "_ZTISt16invalid_argument": "_ZTISt11logic_error",
    "_ZTISt12domain_error": "_ZTISt11logic_error",
    "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt13runtime_error": "_ZTISt9exception",
    "_ZTISt17bad_function_call": "_ZTISt9exception", "_ZTISt8bad_cast": "_ZTISt9exception",
    "_ZTISt18bad_variant_access": "_ZTISt9exception", "_ZTISt19bad_optional_access": "_ZTISt9exception",
    "_ZTISt12bad_any_cast": "_ZTISt8bad_cast", "_ZTISt14overflow_error": "_ZTISt13runtime_error",
    "_ZTISt11range_error": "_ZTISt13runtime_error",
}


def ti_parents(ex, ti):
    if ti in PARENTS:
        return [PARENTS[ti]]
    g = ex.m.globals.get(ti)
    out = []
    if g is not None and g["init"] is not None and g["init"].k == "agg":
        for e in g["init"].v[2:]:
            if e.k == "global" and e.v.startswith("_ZTI"):
                out.append(e.v)
    return out


def ti_matches(ex, ti, want):
    if ti == want:
        return True
    return any(ti_matches(ex, p, want) for p in ti_parents(ex, ti))


@bi("__cxa_allocate_exception")
def cxa_alloc(ex, st, fr, ins, a, name):
    return Ptr(ex.new_obj(st, a[0], 16, "exc", "exception"), 0)


TABLE["__cxa_free_exception"] = nop
TABLE["__cxa_atexit"] = lambda ex, st, fr, ins, a, name: 0


@bi("__cxa_throw")
def cxa_throw(ex, st, fr, ins, a, name):
    ti = st.mem[a[1].o].name
    ex.throw(st, ti, a[0])
    return HANDLED


@bi("__cxa_begin_catch")
def cxa_begin(ex, st, fr, ins, a, name):
    st.caught.append(st.exc)
    return a[0]


@bi("__cxa_end_catch")
def cxa_end(ex, st, fr, ins, a, name):
    if st.caught:
        st.caught.pop()


@bi("__cxa_rethrow")
def cxa_rethrow(ex, st, fr, ins, a, name):
    st.exc = st.caught[-1]
    ex.unwind(st)
    return HANDLED


@bi("__clang_call_terminate", "_ZSt9terminatev", "abort", "__cxa_pure_virtual", "__cxa_deleted_virtual",
    "__cxa_call_unexpected", "exit", "_exit", "_Exit", "quick_exit")
def term(ex, st, fr, ins, a, name):
    ex.oblige(st, False, "control", "no abnormal termination (%s)" % name)
    raise PathEnd("terminate")


@bi("__assert_fail")
def assert_fail(ex, st, fr, ins, a, name):
    try:
        t = cstr(ex, st, a[0])
    except Exception:
        t = "?"
    ex.oblige(st, False, "control", "debug assertion holds: " + t)
    raise PathEnd("assert")


@bi("vp_abandon")
def vp_abandon(ex, st, fr, ins, a, name):
    """end this path silently (the contract has nothing to say beyond this point)"""
    raise PathEnd("abandon")


def thrower(ti, size=16):
    def f(ex, st, fr, ins, a, name):
        if ti not in ex.m.globals:
            ex.m.globals[ti] = dict(ty=ir.PTR, init=None, align=8, const=True)
        ex.throw(st, ti, Ptr(ex.new_obj(st, size, 16, "exc", "exception"), 0))
        return HANDLED
    return f


TABLE["_ZSt17__throw_bad_allocv"] = thrower("_ZTISt9bad_alloc")
TABLE["_ZSt28__throw_bad_array_new_lengthv"] = thrower("_ZTISt20bad_array_new_length")
TABLE["_ZSt20__throw_length_errorPKc"] = thrower("_ZTISt12length_error")
TABLE["_ZSt20__throw_out_of_rangePKc"] = thrower("_ZTISt12out_of_range")
TABLE["_ZSt24__throw_out_of_range_fmtPKcz"] = thrower("_ZTISt12out_of_range")
TABLE["_ZSt25__throw_bad_function_callv"] = thrower("_ZTISt17bad_function_call")
TABLE["_ZSt24__throw_invalid_argumentPKc"] = thrower("_ZTISt16invalid_argument")
TABLE["_ZSt19__throw_logic_errorPKc"] = thrower("_ZTISt11logic_error")

for _n in ("_ZNSt12out_of_rangeC1EPKc", "_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
           "_ZNSt12length_errorC1EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc",
           "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc",
           "_ZNSt9bad_allocD1Ev", "_ZNSt9bad_allocD2Ev", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev",
           "_ZNSt12out_of_rangeD1Ev", "_ZNSt12out_of_rangeD2Ev", "_ZNSt12length_errorD1Ev",
           "_ZNSt11logic_errorD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt20bad_array_new_lengthD1Ev",
           "_ZNSt8bad_castD2Ev", "_ZNSt13runtime_errorD1Ev",
           "_ZNSt12length_errorC2EPKc", "_ZNSt12out_of_rangeC2EPKc", "_ZNSt12length_errorD2Ev",
           "_ZNSt13runtime_errorD2Ev", "_ZNSt8bad_castD1Ev",
           "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"):
    TABLE[_n] = nop


@bi("__cxa_guard_acquire")
def guard_acq(ex, st, fr, ins, a, name):
    v = ex.load(st, a[0], ir.ity(8))
    if isinstance(v, int):
        return 0 if v else 1
    raise EngineError("guard")


@bi("__cxa_guard_release")
def guard_rel(ex, st, fr, ins, a, name):
    ex.store(st, a[0], ir.ity(8), 1)


TABLE["__cxa_guard_abort"] = nop


def alloc_n(ex, st, size, align, nm):
    if not isinstance(size, int):
        ex.assume(st, z3.ULE(size, Z(MAXOBJ, 64)))
    elif size > MAXOBJ:
        raise PathEnd("object too large")
    return Ptr(ex.new_obj(st, size, align, "heap", nm), 0)


@bi("_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t")
def op_new(ex, st, fr, ins, a, name):
    ex.assumed.add("operator new returns a fresh block (failure not modelled)")
    return alloc_n(ex, st, a[0], 16, "new")


@bi("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm")
def op_delete(ex, st, fr, ins, a, name):
    p = depite(ex, st, a[0])
    if isinstance(p, Ptr) and p.o is None and p.off == 0:
        return
    vp_free(ex, st, fr, ins, [p], name)


# ----------------------------------------------------------------------------------------------------------- libc
def byte(ex, st, p, i):
    """byte i of the memory p points at, without bounds obligation"""
    o = st.mem[p.o]
    if o.owner != st.tok and is_init(o, "undef"):
        o = st.wobj(p.o)
    return Z(ex.asint(st, ex.get(st, o, add(p.off, i), 1), 1), 8)


def hint_insts(ex, st, n):
    """index terms at which universally quantified facts are instantiated"""
    out = list(st.hints)
    return out


@bi("memcmp", "bcmp")
def f_memcmp(ex, st, fr, ins, a, name):
    p, q, n = depite(ex, st, a[0]), depite(ex, st, a[1]), simp(a[2])
    if isinstance(n, int) and n == 0:
        return 0
    if not isinstance(n, int):
        rs = ex.branch(st, simp(n == 0))
        if len(rs) == 2:
            ex.work.append(rs[1][0])
        if rs[0][1]:
            return 0
    ex.resolve(st, p, n, "memcmp read")
    ex.resolve(st, q, n, "memcmp read")
    bound = n if isinstance(n, int) else None
    if bound is None and ex.opts["mode"] == "bmc":
        # find an upper bound by the size bound
        bound = ex.opts.get("size_bound") or 8
        bound *= 2
    if isinstance(n, int) and n <= 64:
        # the sign is that of the two blocks read as big-endian numbers
        xs = [byte(ex, st, p, i) for i in range(n)]
        ys = [byte(ex, st, q, i) for i in range(n)]
        x, y = (z3.Concat(*v) if n > 1 else v[0] for v in (xs, ys))
        return simp(z3.If(x == y, Z(0, 32), z3.If(z3.ULT(x, y), Z(-1, 32), Z(1, 32))))
    if bound is not None and bound <= 64:
        r = Z(0, 32)
        for i in range(bound - 1, -1, -1):
            x, y = byte(ex, st, p, i), byte(ex, st, q, i)
            d = z3.ZeroExt(24, x) - z3.ZeroExt(24, y)
            r = z3.If(z3.And(z3.ULT(Z(i, 64), Z(n, 64)), x != y), d, r)
        return simp(r)
    # contract: zero iff all equal; otherwise the first difference at some index i decides the sign
    eqall = ex.fresh(1, "memcmp_eq")
    i = ex.fresh(64, "memcmp_i")
    r = ex.fresh(32, "memcmp_r")
    s2 = st.fork()
    s2.pc.append(z3.And(z3.Not(eqall), z3.ULT(i, Z(n, 64))))
    x, y = byte(ex, s2, p, i), byte(ex, s2, q, i)
    st.pc.append(z3.If(eqall, r == 0, z3.And(z3.ULT(i, Z(n, 64)), x != y,
                                            z3.If(z3.ULT(x, y), r < 0, r > 0))))
    for h in hint_insts(ex, st, n):
        s3 = st.fork()
        s3.pc.append(z3.ULT(h, Z(n, 64)))
        if ex.solver.check(s3.pc) == "unsat":
            continue
        x, y = byte(ex, s3, p, h), byte(ex, s3, q, h)
        st.pc.append(z3.Implies(z3.And(z3.ULT(h, Z(n, 64)), z3.Or(eqall, z3.ULT(h, i))), x == y))
    ex.assumed.add("memcmp contract")
    return r


@bi("memchr")
def f_memchr(ex, st, fr, ins, a, name):
    p, c, n = depite(ex, st, a[0]), a[1], simp(a[2])
    c = Z(c & 255, 8) if isinstance(c, int) else simp(z3.Extract(7, 0, c))
    c = Z(c, 8)
    if isinstance(n, int) and n == 0:
        return NULL
    if not isinstance(n, int):
        rs = ex.branch(st, simp(n == 0))
        if len(rs) == 2:
            ex.work.append(rs[1][0])
        if rs[0][1]:
            return NULL
    ex.resolve(st, p, n, "memchr read")
    bound = n if isinstance(n, int) else None
    if bound is None and ex.opts["mode"] == "bmc":
        bound = 2 * (ex.opts.get("size_bound") or 8)
    N = Z(n, 64)
    if bound is not None and bound <= 64:
        r = N
        for i in range(bound - 1, -1, -1):
            r = z3.If(z3.And(z3.ULT(Z(i, 64), N), byte(ex, st, p, i) == c), Z(i, 64), r)
        r = simp(r)
        found = ult(r, n)
        rs = ex.branch(st, found)
        if len(rs) == 2:
            ex.work.append(rs[1][0])
        return Ptr(p.o, add(p.off, r)) if rs[0][1] else NULL
    found = ex.fresh(1, "memchr_found")
    i = ex.fresh(64, "memchr_i")
    s2 = st.fork()
    s2.pc.append(z3.ULT(i, N))
    st.pc.append(z3.Implies(found, z3.And(z3.ULT(i, N), byte(ex, s2, p, i) == c)))
    for h in hint_insts(ex, st, n):
        # hints may index the searched range, or the object it lies in
        for hh in (h, sub(h, p.off)):
            s3 = st.fork()
            s3.pc.append(z3.ULT(Z(hh, 64), N))
            if ex.solver.check(s3.pc) == "unsat":
                continue
            x = byte(ex, s3, p, hh)
            st.pc.append(z3.Implies(z3.And(z3.ULT(Z(hh, 64), N), z3.Or(z3.Not(found), z3.ULT(Z(hh, 64), i))), x != c))
    ex.assumed.add("memchr contract")
    rs = ex.branch(st, found)
    if len(rs) == 2:
        o = rs[1][0]
        ex_finish(ex, o, ins, NULL)
        ex.work.append(o)
    return Ptr(p.o, add(p.off, i)) if rs[0][1] else NULL


@bi("strlen")
def f_strlen(ex, st, fr, ins, a, name):
    p = depite(ex, st, a[0])
    if p.o is None:
        ex.oblige(st, False, "memory", "strlen of a valid string")
        raise PathEnd("strlen")
    o = st.mem[p.o]
    if isinstance(o.size, int) and isinstance(p.off, int) and o.size - p.off <= 64:
        n = o.size - p.off
        r = Z(mask(64), 64)
        for i in range(n - 1, -1, -1):
            r = z3.If(byte(ex, st, p, i) == 0, Z(i, 64), r)
        r = simp(r)
        ex.oblige(st, lnot(eq(r, mask(64))), "memory", "strlen of a terminated string")
        return r
    N = Z(sub(o.size, p.off), 64)
    i = ex.fresh(64, "strlen")
    # a terminator is required somewhere in the object: the contract that builds the string names its position
    ok = False
    for h in hint_insts(ex, st, N):
        s3 = st.fork()
        s3.pc.append(z3.ULT(h, N))
        if ex.solver.check(s3.pc) == "unsat":
            continue
        x = byte(ex, s3, p, h)
        if ex.valid(st, simp(z3.And(z3.ULT(h, N), x == 0))):
            ok = True
            st.pc.append(z3.ULE(i, h))
        st.pc.append(z3.Implies(z3.ULT(h, i), x != 0))
    if not ok:
        raise EngineError("strlen: terminator position unknown")
    s2 = st.fork()
    s2.pc.append(z3.ULT(i, N))
    st.pc.append(z3.And(z3.ULT(i, N), byte(ex, s2, p, i) == 0))
    ex.assumed.add("strlen contract")
    return i


@bi("_ZSt6searchIPKcS1_ET_S2_S2_T0_S3_")
def f_search(ex, st, fr, ins, a, name):
    """std::search over characters: the first occurrence of [a2, a3) in [a0, a1), or a1"""
    f, l, g, h = (depite(ex, st, x) for x in a)
    if ex.opts["mode"] == "bmc" or f.o is None or g.o is None or f.o != l.o or g.o != h.o:
        return DECLINED
    n, m = Z(sub(l.off, f.off), 64), Z(sub(h.off, g.off), 64)
    ex.oblige(st, simp(z3.And(z3.ULE(Z(f.off, 64), Z(l.off, 64)), z3.ULE(Z(g.off, 64), Z(h.off, 64)))), "call",
              "std::search over valid ranges")
    for p, c in ((f, n), (g, m)):
        s1 = st.fork()
        s1.pc.append(c != 0)
        if ex.solver.check(s1.pc) != "unsat":
            ex.oblige(st, simp(z3.Or(c == 0, z3.ULE(Z(p.off, 64) + c, Z(st.mem[p.o].size, 64)))), "memory",
                      "std::search reads inside the block")
    found = ex.fresh(1, "search_found")
    r = ex.fresh(64, "search_r")
    st.pc.append(z3.If(found, z3.And(z3.ULE(m, n), z3.ULE(r, n - m)), r == n))
    for j in hint_insts(ex, st, m):
        s1 = st.fork()
        s1.pc.append(z3.And(found, z3.ULT(j, m)))
        if ex.solver.check(s1.pc) == "unsat":
            continue
        x, y = byte(ex, s1, f, add(r, j)), byte(ex, s1, g, j)
        st.pc.append(z3.Implies(z3.And(found, z3.ULT(j, m)), x == y))
    for h in hint_insts(ex, st, n):
        # an occurrence at the named position of the searched block: the result is not behind it
        k = sub(h, f.off)
        q = ex.fresh(64, "search_q")
        at = z3.And(z3.ULE(m, n), z3.ULE(Z(k, 64), n - m))
        s1 = st.fork()
        s1.pc.append(z3.And(at, z3.ULT(q, m)))
        if ex.solver.check(s1.pc) == "unsat" or ex.valid(s1, eq(byte(ex, s1, f, add(k, q)), byte(ex, s1, g, q), 8)):
            st.pc.append(z3.Implies(at, z3.And(found, z3.ULE(r, Z(k, 64)))))
    ex.assumed.add("std::search contract")
    return Ptr(f.o, add(f.off, r))
