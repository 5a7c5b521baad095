"""Symbolic execution of LLVM IR with contract obligations, over bit-vectors, discharged by z3.

Ints are Python ints (already masked) or z3 bit-vectors; i1 values are Python bools or z3 Bools; pointers are Ptr
(object, offset).  Loops whose trip count is not fixed by the path are cut by inferred invariants (see loops.py).
"""
import time
import z3
import ir
from ir import Const, Local

z3.set_param("memory_max_size", 6000)


class EngineError(Exception):
    """the code left the fragment the engine understands: never a violation, always an error exit"""


class PathEnd(Exception):
    """the current path is finished (infeasible, assumed away or ended)"""


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.o, self.off)


NULL = Ptr(None, 0)


class PIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


def pite(c, a, b):
    """pointer a if c else b"""
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
        return Ptr(a.o, simp(ite(c, a.off, b.off, 64)))
    return PIte(c, a, b)


class FP:
    """floating point value: concrete float or z3 FP term"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


# ------------------------------------------------------------------------------------------------------- terms
def is_sym(v):
    return isinstance(v, z3.ExprRef)


_bvcache = {}


def Z(v, w):
    if isinstance(v, int):
        k = (v, w)
        r = _bvcache.get(k)
        if r is None:
            r = _bvcache[k] = z3.BitVecVal(v, w)
        return r
    return v


def ZB(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def norm(e):
    """z3 term -> python int/bool if it is a literal"""
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def zsimp(e):
    return z3.simplify(e, bv_le2extract=False)


def simp(e):
    if isinstance(e, (int, bool)):
        return e
    return norm(zsimp(e))


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def add(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & mask(w)
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return simp(Z(a, w) + Z(b, w))


def sub(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & mask(w)
    if isinstance(b, int) and b == 0:
        return a
    return simp(Z(a, w) - Z(b, w))


def mul(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & mask(w)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, int):
            if x == 0:
                return 0
            if x == 1:
                return y
    return simp(Z(a, w) * Z(b, w))


def eq(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if is_sym(a) and is_sym(b) and a.eq(b):
        return True
    return simp(Z(a, w) == Z(b, w))


def ult(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return simp(z3.ULT(Z(a, w), Z(b, w)))


def ule(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return simp(z3.ULE(Z(a, w), Z(b, w)))


def land(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def lor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def lnot(x):
    if isinstance(x, bool):
        return not x
    return simp(z3.Not(x))


def ite(c, a, b, w):
    """int ite"""
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if is_sym(a) and is_sym(b) and a.eq(b):
        return a
    return z3.If(c, Z(a, w), Z(b, w))


def same(a, b):
    """cheap structural equality of values"""
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.o == b.o and same(a.off, b.off)
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if isinstance(a, FP) and isinstance(b, FP):
        return same(a.v, b.v)
    if isinstance(a, float) and isinstance(b, float):
        return a == b
    if isinstance(a, PIte) and isinstance(b, PIte):
        return same(a.c, b.c) and same(a.a, b.a) and same(a.b, b.b)
    return False


# ------------------------------------------------------------------------------------------------------- objects
class Obj:
    __slots__ = ("id", "size", "align", "kind", "alive", "ro", "name", "cells", "log", "init", "owner", "misalign",
                 "func")

    def __init__(self, id, size, align, kind, name, init="undef"):
        self.id, self.size, self.align, self.kind, self.name = id, size, align, kind, name
        self.alive, self.ro = True, False
        self.cells = {}
        self.log = None
        self.init = init
        self.owner = None
        self.misalign = None
        self.func = None

    def copy(self):
        n = Obj(self.id, self.size, self.align, self.kind, self.name, self.init)
        n.alive, n.ro, n.misalign, n.func = self.alive, self.ro, self.misalign, self.func
        n.cells = dict(self.cells)
        n.log = self.log
        return n


def is_init(o, what):
    return isinstance(o.init, str) and o.init == what


class Frame:
    __slots__ = ("f", "b", "prev", "i", "regs", "allocas", "ret_inst", "loops", "byval")

    def __init__(self, f):
        self.f = f
        self.b = f.order[0]
        self.prev = None
        self.i = 0
        self.regs = {}
        self.allocas = []
        self.ret_inst = None
        self.loops = ()

    def copy(self):
        n = Frame.__new__(Frame)
        n.f, n.b, n.prev, n.i = self.f, self.b, self.prev, self.i
        n.regs = dict(self.regs)
        n.allocas = list(self.allocas)
        n.ret_inst = self.ret_inst
        n.loops = self.loops
        return n


class State:
    _tok = 0

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.addr = {}          # oid -> base BV (address taken)
        self.trace = []         # nondet inputs in order
        self.names = {}
        self.exc = None         # (typeinfo, ptr)
        self.caught = []
        self.labels = []        # path notes
        self.hints = []         # index terms the contract is interested in
        self.pending = None     # block to go to when the state is resumed
        self.tok = State.newtok()

    @staticmethod
    def newtok():
        State._tok += 1
        return State._tok

    def fork(self):
        n = State.__new__(State)
        n.frames = [f.copy() for f in self.frames]
        n.mem = dict(self.mem)
        n.pc = list(self.pc)
        n.addr = dict(self.addr)
        n.trace = list(self.trace)
        n.names = dict(self.names)
        n.exc = self.exc
        n.caught = list(self.caught)
        n.labels = list(self.labels)
        n.hints = list(self.hints)
        n.pending = self.pending
        n.tok = State.newtok()
        self.tok = State.newtok()
        return n

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner != self.tok:
            o = o.copy()
            o.owner = self.tok
            self.mem[oid] = o
        return o

    def top(self):
        return self.frames[-1]


# -------------------------------------------------------------------------------------------------------- solver
def cvc5_check(smt2, timeout_ms):
    """decide with cvc5, bit-vectors as integers: fast on the linear index arithmetic z3's bit-blasting is slow on"""
    import cvc5
    try:
        s = cvc5.Solver(cvc5.TermManager())
        s.setOption("solve-bv-as-int", "sum")
        s.setOption("tlimit-per", str(timeout_ms))
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt2, "q")
        sm = p.getSymbolManager()
        r = "unknown"
        while True:
            c = p.nextCommand()
            if c.isNull():
                return r
            o = c.invoke(s, sm).strip()
            if o in ("sat", "unsat"):
                r = o
            elif o.startswith("(error"):
                return "unknown"
    except Exception:
        return "unknown"


class Stats:
    queries = 0
    time = 0.0
    cvc5 = 0
    unknowns = 0


def hard(assertions, timeout_ms):
    """(result, model) for a query that did not yield at once"""
    s = z3.Solver()
    s.add(*assertions)
    Stats.cvc5 += 1
    r = cvc5_check("(set-logic ALL)\n" + s.to_smt2(), min(timeout_ms, 10000))
    if r == "unsat":
        return r, None
    s.set("timeout", timeout_ms)
    r2 = str(s.check())
    if r2 == "sat":
        return r2, s.model()
    if r2 == "unsat":
        return r2, None
    try:
        s = z3.SolverFor("QF_AUFBV")
        s.set("timeout", timeout_ms)
        s.add(*assertions)
        r2 = str(s.check())
        if r2 == "sat":
            return r2, s.model()
        if r2 == "unsat":
            return r2, None
    except z3.Z3Exception:
        pass
    if r == "sat":
        return "sat", None
    Stats.unknowns += 1
    return "unknown", None


QUICK = 120
_varcache = {}


def symbols(e):
    """uninterpreted symbols of a term"""
    k = e.get_id()
    r = _varcache.get(k)
    if r is None:
        out, seen, todo = set(), set(), [e]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                todo.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                todo.extend(x.children())
        r = _varcache[k] = (e, frozenset(out))     # the term is kept so that its id stays its own
    return r[1]


def relevant(pc, extra):
    """the assumptions connected to `extra` by shared symbols: refuting them refutes all; as the others share no symbol
    with them, a model of them extends to one of all whenever the assumptions have one"""
    have = set(symbols(extra))
    out, rest, more = [], [], True
    for c in pc:
        rest.extend(c.children() if z3.is_and(c) else [c])
    while more:
        more, left = False, []
        for c in rest:
            v = symbols(c)
            if v & have:
                out.append(c)
                if not v <= have:
                    have |= v
                    more = True
            else:
                left.append(c)
        rest = left
    return out, len(rest)


class Solver:
    """incremental z3 solver whose assertion stack follows the path condition of the state being executed"""

    def __init__(self, timeout_ms=20000):
        self.s = z3.Solver()
        self.timeout = timeout_ms
        self.s.set("timeout", QUICK)
        self.stack = []

    queries = property(lambda self: Stats.queries)
    time = property(lambda self: Stats.time)
    unknowns = property(lambda self: Stats.unknowns)

    def sync(self, pc):
        n = 0
        st = self.stack
        m = min(len(st), len(pc))
        while n < m and (st[n] is pc[n] or st[n].eq(pc[n])):
            n += 1
        if len(st) > n:
            self.s.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.s.push()
            self.s.add(c)
            st.append(c)

    def check(self, pc, extra=None, model=True):
        """'sat' | 'unsat' | 'unknown'; model available in self.model after sat, unless not asked for"""
        if extra is True:
            extra = None
        if extra is False:
            return "unsat"
        t = time.time()
        self.sync(pc)
        Stats.queries += 1
        self.model = None
        if extra is not None:
            self.s.push()
            self.s.add(extra)
        r = str(self.s.check())
        if r == "sat":
            self.model = self.s.model()
        if extra is not None:
            self.s.pop()
        if r == "unknown" and extra is not None:
            some, rest = relevant(pc, extra)
            if rest >= len(some):
                s = z3.SolverFor("QF_AUFBV")
                s.set("timeout", 2 * QUICK)
                s.add(*some)
                s.add(extra)
                try:
                    r1 = str(s.check())
                except z3.Z3Exception:
                    r1 = "unknown"
                if r1 == "unsat" or r1 == "sat" and not model:
                    r = r1
        if r == "unknown":
            r, self.model = hard(list(pc) + ([extra] if extra is not None else []), self.timeout)
        Stats.time += time.time() - t
        return r


def decide(s, extra, timeout_ms=10000, small=None):
    """check solver s (z3) with one more assertion; (result, model). `small`: bounds under which a model is likely"""
    t = time.time()
    Stats.queries += 1
    s.push()
    s.add(extra)
    if small is not None:
        s.push()
        s.add(small)
        s.set("timeout", 2 * QUICK)
        r = str(s.check())
        if r == "sat":
            m = s.model()
            s.pop(2)
            Stats.time += time.time() - t
            return r, m
        s.pop()
    s.set("timeout", QUICK)
    r = str(s.check())
    m = s.model() if r == "sat" else None
    if r == "unknown":
        r, m = hard(list(s.assertions()), timeout_ms)
    s.pop()
    Stats.time += time.time() - t
    return r, m


class Failure:
    def __init__(self, kind, label, where, state, model, reason):
        self.kind, self.label, self.where = kind, label, where
        self.state, self.model, self.reason = state, model, reason

    def key(self):
        return (self.kind, self.label, self.where)
