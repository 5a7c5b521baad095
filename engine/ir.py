"""Parser for the subset of textual LLVM IR (clang 18, opaque pointers) that the contract files lower to."""
import re

TOKEN = re.compile(r'''
    (?P<cstr>c"(?:[^"])*")
  | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>![-a-zA-Z$._0-9]*)
  | (?P<attr>\#\d+)
  | (?P<str>"[^"]*")
  | (?P<hex>0x[KLMH]?[0-9A-Fa-f]+)
  | (?P<num>-?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?)
  | (?P<dots>\.\.\.)
  | (?P<word>[a-zA-Z_][\w.$-]*)
  | (?P<punct>[()\[\]{}<>,=*:|])
  | (?P<ws>\s+)
''', re.X)


class IRError(Exception):
    pass


# ---------------------------------------------------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b", "_size", "_align", "_offs")

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self._size = self._align = self._offs = None

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.a
        return "%s(%s,%s)" % (self.k, self.a, self.b) if self.a is not None else self.k


INTS = {}


def ity(n):
    if n not in INTS:
        INTS[n] = Ty("int", n)
    return INTS[n]


PTR = Ty("ptr")
VOID = Ty("void")
FLOAT = Ty("fp", 32)
DOUBLE = Ty("fp", 64)
X86FP80 = Ty("fp", 80)
LABEL = Ty("label")
META = Ty("metadata")


def tokens(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ";":
            e = s.find("\n", pos)
            if e < 0:
                break
            pos = e
            continue
        m = TOKEN.match(s, pos)
        if not m:
            raise IRError("cannot tokenise IR at: " + s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group()))
    return out


def uq(name):
    """strip sigil and quotes"""
    n = name[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


class Const:
    """A constant operand.  kinds: int, null, undef, zero, global, agg, bytes, gep, cast, fp, binop, icmp, select"""
    __slots__ = ("k", "ty", "v", "w")

    def __init__(self, k, ty, v=None, w=None):
        self.k, self.ty, self.v, self.w = k, ty, v, w

    def __repr__(self):
        return "Const(%s,%r)" % (self.k, self.v)


class Local:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "%" + self.n


class Inst:
    __slots__ = ("op", "dst", "ty", "a", "line", "dbg", "idx", "align")

    def __init__(self, op, dst, ty, a):
        self.op, self.dst, self.ty, self.a = op, dst, ty, a
        self.dbg = None
        self.idx = None
        self.align = 1

    def __repr__(self):
        return "%s = %s %s %s" % (self.dst, self.op, self.ty, self.a)


class Block:
    def __init__(self, name):
        self.name = name
        self.insts = []
        self.phis = []
        self.succs = []


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []      # (name, ty, attrs dict)
        self.ret = None
        self.blocks = {}
        self.order = []
        self.varargs = False
        self.dbg = None
        self.loops = None
        self.declared = False


PARAM_ATTR_PAREN = {"dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "elementtype", "inalloca",
                    "preallocated", "align", "memory", "allocsize", "range", "nofpclass", "initializes",
                    "captures"}
PARAM_ATTR_WORDS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "returned",
                    "zeroext", "signext", "inreg", "immarg", "nofree", "nest", "swiftself", "allocptr", "writable",
                    "dead_on_unwind", "allocalign", "noreturn", "nounwind"}
CCONV = {"fastcc", "coldcc", "ccc"}
LINKAGE = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak",
           "linkonce_odr", "weak_odr", "external", "dso_local", "dso_preemptable", "hidden", "protected", "default",
           "unnamed_addr", "local_unnamed_addr", "externally_initialized", "thread_local", "dllexport"}
FLAGS = {"nsw", "nuw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc",
         "tail", "musttail", "notail", "nneg", "disjoint", "samesign", "volatile"}


class P:
    """token cursor"""

    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ("eof", "")

    def pv(self):
        return self.peek()[1]

    def nxt(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] != "str":
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError("expected %r, got %r near %s" % (v, self.peek(), self.t[max(0, self.i - 8):self.i + 5]))

    # types
    def type(self):
        k, v = self.nxt()
        t = None
        if k == "word":
            if re.match(r"i\d+$", v):
                t = ity(int(v[1:]))
            elif v == "ptr":
                t = PTR
                if self.pv() == "addrspace":
                    raise IRError("addrspace")
            elif v == "void":
                t = VOID
            elif v == "float":
                t = FLOAT
            elif v == "double":
                t = DOUBLE
            elif v == "x86_fp80":
                t = X86FP80
            elif v == "label":
                t = LABEL
            elif v == "metadata":
                t = META
            elif v == "opaque":
                t = Ty("opaque")
            else:
                raise IRError("unknown type word " + v)
        elif k == "local":
            t = self.m.named(uq(v))
        elif v == "[":
            n = int(self.nxt()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Ty("arr", n, e)
        elif v == "{":
            t = self.struct_body(False)
        elif v == "<":
            if self.pv() == "{":
                self.nxt()
                t = self.struct_body(True)
                self.expect(">")
            else:
                n = int(self.nxt()[1])
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = Ty("vec", n, e)
        else:
            raise IRError("type? %r" % ((k, v),))
        # function type suffix:  T (args)   (only appears in call callee types for varargs)
        return t

    def struct_body(self, packed):
        fs = []
        if not self.accept("}"):
            while True:
                fs.append(self.type())
                if self.accept("}"):
                    break
                self.expect(",")
        return Ty("struct", fs, packed)

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            v = self.nxt()[1]
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1

    def param_attrs(self):
        at = {}
        while True:
            k, v = self.peek()
            if k == "word" and v in PARAM_ATTR_WORDS and v not in ("align",):
                self.nxt()
                at[v] = True
            elif k == "word" and v == "align":
                self.nxt()
                if self.accept("("):
                    at["align"] = int(self.nxt()[1])
                    self.expect(")")
                else:
                    at["align"] = int(self.nxt()[1])
            elif k == "word" and v in ("sret", "byval"):
                self.nxt()
                self.expect("(")
                at[v] = self.type()
                self.expect(")")
            elif k == "word" and v in PARAM_ATTR_PAREN:
                self.nxt()
                if self.pv() == "(":
                    self.skip_parens()
            elif k == "attr":
                self.nxt()
            elif k == "str":
                self.nxt()
                if self.accept("="):
                    self.nxt()
            else:
                return at

    # constants / operands
    def value(self, ty):
        k, v = self.nxt()
        if k == "local":
            return Local(uq(v))
        if k == "glob":
            return Const("global", ty, uq(v))
        if k == "num":
            if ty.k == "fp":
                return Const("fp", ty, float(v))
            return Const("int", ty, int(v) & ((1 << ty.a) - 1))
        if k == "hex":
            if ty.k == "fp":
                import struct
                return Const("fp", ty, struct.unpack("<d", int(v, 16).to_bytes(8, "little"))[0])
            return Const("int", ty, int(v, 16))
        if k == "cstr":
            s = v[2:-1]
            bs = bytearray()
            i = 0
            while i < len(s):
                if s[i] == "\\":
                    if s[i + 1] == "\\":
                        bs.append(92)
                        i += 2
                    else:
                        bs.append(int(s[i + 1:i + 3], 16))
                        i += 3
                else:
                    bs += s[i].encode("latin1")
                    i += 1
            return Const("bytes", ty, bytes(bs))
        if k == "word":
            if v == "true":
                return Const("int", ty, 1)
            if v == "false":
                return Const("int", ty, 0)
            if v == "null":
                return Const("null", ty)
            if v in ("undef", "poison"):
                return Const("undef", ty)
            if v == "zeroinitializer":
                return Const("zero", ty)
            if v == "none":
                return Const("undef", ty)
            if v == "dso_local_equivalent" or v == "no_cfi":
                return self.value(ty)
            if v == "getelementptr":
                while self.pv() in ("inbounds", "inrange"):
                    self.nxt()
                    if self.pv() == "(" and self.peek(1)[0] == "num":
                        pass
                self.expect("(")
                bt = self.type()
                self.expect(",")
                pt = self.type()
                base = self.value(pt)
                idx = []
                while self.accept(","):
                    self.accept("inrange")
                    t = self.type()
                    idx.append((t, self.value(t)))
                self.expect(")")
                return Const("gep", ty, (bt, base, idx))
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "addrspacecast", "zext", "sext"):
                self.expect("(")
                ft = self.type()
                x = self.value(ft)
                self.expect("to")
                tt = self.type()
                self.expect(")")
                return Const("cast", tt, (v, ft, x))
            if v in ("sub", "add", "mul", "xor", "and", "or", "shl", "lshr"):
                while self.pv() in FLAGS:
                    self.nxt()
                self.expect("(")
                t1 = self.type()
                x = self.value(t1)
                self.expect(",")
                t2 = self.type()
                y = self.value(t2)
                self.expect(")")
                return Const("binop", ty, (v, t1, x, y))
            if v == "icmp":
                pred = self.nxt()[1]
                self.expect("(")
                t1 = self.type()
                x = self.value(t1)
                self.expect(",")
                t2 = self.type()
                y = self.value(t2)
                self.expect(")")
                return Const("icmp", ty, (pred, t1, x, y))
        if v in ("[", "{", "<"):
            close = {"[": "]", "{": "}", "<": ">"}[v]
            packed = False
            if v == "<" and self.pv() == "{":
                self.nxt()
                packed = True
                close = "}"
            es = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    es.append(self.value(t))
                    if self.accept(close):
                        break
                    self.expect(",")
            if packed:
                self.expect(">")
            return Const("agg", ty, es)
        raise IRError("value? %r for %r" % ((k, v), ty))

    def tv(self):
        t = self.type()
        self.param_attrs()
        if t.k == "metadata":
            # metadata operands are skipped
            d = 0
            while True:
                k, v = self.peek()
                if k == "eof" or (d == 0 and v in (",", ")")):
                    break
                if v in ("(", "{"):
                    d += 1
                if v in (")", "}"):
                    d -= 1
                self.nxt()
            return (t, None)
        return (t, self.value(t))


class Module:
    def __init__(self):
        self.types = {}
        self.typedefs = {}
        self.globals = {}      # name -> dict(ty, init(Const|None), const)
        self.funcs = {}
        self.aliases = {}
        self.ctors = []
        self.md = {}
        self._loc = {}

    def named(self, n):
        if n not in self.types:
            self.types[n] = Ty("named", n)
        return self.types[n]

    def res(self, t):
        while t.k == "named":
            t = self.typedefs[t.a]
        return t

    def align(self, t):
        if t._align is None:
            self._layout(t)
        return t._align

    def size(self, t):
        if t._size is None:
            self._layout(t)
        return t._size

    def offs(self, t):
        t = self.res(t)
        if t._offs is None:
            self._layout(t)
        return t._offs

    def _layout(self, t):
        k = t.k
        if k == "named":
            r = self.res(t)
            t._size, t._align, t._offs = self.size(r), self.align(r), r._offs
        elif k == "int":
            n = (t.a + 7) // 8
            p = 1
            while p < n:
                p *= 2
            t._size, t._align = p, min(p, 16)
        elif k == "ptr":
            t._size, t._align = 8, 8
        elif k == "fp":
            t._size = {32: 4, 64: 8, 80: 16}[t.a]
            t._align = t._size
        elif k == "arr":
            t._size, t._align = t.a * self.size(t.b), self.align(t.b)
        elif k == "vec":
            t._size = t.a * self.size(t.b)
            t._align = t._size
        elif k == "struct":
            off = 0
            al = 1
            offs = []
            for f in t.a:
                a = 1 if t.b else self.align(f)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += self.size(f)
                al = max(al, a)
            off = (off + al - 1) // al * al
            t._size, t._align, t._offs = off, al, offs
        else:
            raise IRError("no layout for %r" % t)

    # ---- debug info
    def loc(self, ref):
        """DILocation ref -> (function, file, line)"""
        if ref is None:
            return None
        if ref in self._loc:
            return self._loc[ref]
        s = self.md.get(ref, "")
        m = re.search(r"line: (\d+)", s)
        line = int(m.group(1)) if m else 0
        m = re.search(r"scope: (!\d+)", s)
        fn, fl = "?", "?"
        sc = m.group(1) if m else None
        depth = 0
        while sc and depth < 50:
            t = self.md.get(sc, "")
            if "DISubprogram" in t:
                mm = re.search(r'name: "([^"]*)"', t)
                fn = mm.group(1) if mm else "?"
                mm = re.search(r"file: (!\d+)", t)
                if mm:
                    f = self.md.get(mm.group(1), "")
                    mm = re.search(r'filename: "([^"]*)"', f)
                    fl = mm.group(1) if mm else "?"
                break
            mm = re.search(r"scope: (!\d+)", t)
            sc = mm.group(1) if mm else None
            depth += 1
        r = (fn, fl, line)
        self._loc[ref] = r
        return r


def parse(text):
    m = Module()
    lines = text.split("\n")
    i = 0
    n = len(lines)
    bodies = []
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] == ";":
            continue
        c = ln[0]
        if c == "%":
            p = P(m, tokens(ln))
            nm = uq(p.nxt()[1])
            p.expect("=")
            p.expect("type")
            m.typedefs[nm] = p.type()
        elif c == "@":
            parse_global(m, ln)
        elif ln.startswith("define"):
            body = []
            while lines[i] != "}":
                body.append(lines[i])
                i += 1
            i += 1
            bodies.append((ln, body))
        elif ln.startswith("declare"):
            f = parse_header(m, ln)
            f.declared = True
            m.funcs.setdefault(f.name, f)
        elif c == "!":
            mm = re.match(r"(![\w.]+) = (.*)$", ln)
            if mm:
                m.md[mm.group(1)] = mm.group(2)
        # source_filename, target, $comdat, attributes: ignored
    for hdr, body in bodies:
        f = parse_header(m, hdr)
        m.funcs[f.name] = f
        f.raw = body
    return m


def parse_global(m, ln):
    ln = re.sub(r", !dbg !\d+", "", ln)
    p = P(m, tokens(ln))
    nm = uq(p.nxt()[1])
    p.expect("=")
    external = False
    while True:
        k, v = p.peek()
        if v in ("external", "extern_weak"):
            external = True
        if v in LINKAGE:
            p.nxt()
            if v == "thread_local" and p.pv() == "(":
                p.skip_parens()
            continue
        break
    v = p.nxt()[1]
    if v == "alias":
        t = p.type()
        if p.pv() == "(":
            p.skip_parens()
        p.expect(",")
        t2 = p.type()
        tgt = p.value(t2)
        m.aliases[nm] = tgt
        return
    if v not in ("global", "constant"):
        raise IRError("global? " + ln)
    ty = p.type()
    init = None
    if not external:
        init = p.value(ty)
    al = None
    mm = re.search(r"align (\d+)", ln)
    if mm:
        al = int(mm.group(1))
    m.globals[nm] = dict(ty=ty, init=init, const=(v == "constant"), align=al)
    if nm == "llvm.global_ctors" and init is not None and init.k == "agg":
        for e in init.v:
            m.ctors.append(e.v[1].v)


def parse_header(m, ln):
    p = P(m, tokens(ln))
    p.nxt()
    while p.pv() in LINKAGE or p.pv() in CCONV:
        p.nxt()
    p.param_attrs()
    ret = p.type()
    name = uq(p.nxt()[1])
    f = Func(name)
    f.ret = ret
    p.expect("(")
    i = 0
    if not p.accept(")"):
        while True:
            if p.accept("..."):
                f.varargs = True
                p.expect(")")
                break
            t = p.type()
            at = p.param_attrs()
            nm = None
            if p.peek()[0] == "local":
                nm = uq(p.nxt()[1])
            else:
                nm = str(i)
            f.params.append((nm, t, at))
            i += 1
            if p.accept(")"):
                break
            p.expect(",")
    mm = re.search(r"!dbg (!\d+)", ln)
    f.dbg = mm.group(1) if mm else None
    return f


LABEL_RE = re.compile(r'^("[^"]*"|[-a-zA-Z$._0-9]+):')
DBG_RE = re.compile(r", !dbg (!\d+)")
MD_RE = re.compile(r", ![\w.]+ !\d+")


def materialise(m, f):
    """parse the body of f on first use"""
    if f.blocks:
        return f
    body = f.raw
    cur = None
    i = 0
    unnamed = None
    while i < len(body):
        ln = body[i]
        i += 1
        s = ln.strip()
        if not s or s[0] == ";":
            continue
        if ln[0] not in " \t":
            mm = LABEL_RE.match(ln)
            if not mm:
                raise IRError("label? " + ln)
            nm = mm.group(1)
            if nm.startswith('"'):
                nm = nm[1:-1]
            cur = Block(nm)
            f.blocks[nm] = cur
            f.order.append(nm)
            continue
        if cur is None:
            cur = Block("%entry0")
            f.blocks[cur.name] = cur
            f.order.append(cur.name)
        # join continuation lines
        if re.match(r"(%\S+ = )?(tail |musttail |notail )?invoke ", s):
            s += " " + body[i].strip()
            i += 1
        elif re.search(r"= landingpad ", s):
            while i < len(body) and re.match(r"\s+(catch|cleanup|filter)\b", body[i]):
                s += " " + body[i].strip()
                i += 1
        elif s.startswith("switch "):
            while "]" not in s:
                s += " " + body[i].strip()
                i += 1
        dbg = None
        mm = DBG_RE.search(s)
        if mm:
            dbg = mm.group(1)
        s = MD_RE.sub("", s)
        ins = parse_inst(m, s)
        if ins is None:
            continue
        ins.dbg = dbg
        if ins.op in ("load", "store"):
            mm = re.search(r", align (\d+)", s)
            if mm:
                ins.align = int(mm.group(1))
        if ins.op == "phi":
            cur.phis.append(ins)
        else:
            cur.insts.append(ins)
    for b in f.blocks.values():
        t = b.insts[-1]
        if t.op == "br":
            b.succs = [t.a[-1]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        elif t.op == "switch":
            b.succs = [t.a[1]] + [x[1] for x in t.a[2]]
        elif t.op == "invoke":
            b.succs = [t.a["normal"], t.a["unwind"]]
        else:
            b.succs = []
    find_loops(f)
    find_ipdoms(f)
    return f


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd",
          "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "fptoui", "fptosi", "uitofp", "sitofp", "fpext",
         "fptrunc", "addrspacecast"}


def parse_inst(m, s):
    p = P(m, tokens(s))
    dst = None
    if p.peek()[0] == "local" and p.peek(1)[1] == "=":
        dst = uq(p.nxt()[1])
        p.nxt()
    while p.pv() in ("tail", "musttail", "notail"):
        p.nxt()
    op = p.nxt()[1]
    if op in BINOPS:
        fl = []
        while p.pv() in FLAGS:
            fl.append(p.nxt()[1])
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return Inst(op, dst, t, (a, b, tuple(fl)))
    if op in CASTS:
        while p.pv() in FLAGS:
            p.nxt()
        t = p.type()
        a = p.value(t)
        p.expect("to")
        t2 = p.type()
        return Inst(op, dst, t2, (t, a))
    if op == "freeze":
        t = p.type()
        return Inst(op, dst, t, (p.value(t),))
    if op == "fneg":
        while p.pv() in FLAGS:
            p.nxt()
        t = p.type()
        return Inst(op, dst, t, (p.value(t),))
    if op in ("icmp", "fcmp"):
        while p.pv() in FLAGS:
            p.nxt()
        pred = p.nxt()[1]
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return Inst(op, dst, ity(1), (pred, t, a, b))
    if op == "alloca":
        p.accept("inalloca")
        t = p.type()
        cnt = None
        al = None
        while p.accept(","):
            if p.accept("align"):
                al = int(p.nxt()[1])
            else:
                t2 = p.type()
                cnt = (t2, p.value(t2))
        return Inst(op, dst, t, (cnt, al))
    if op == "load":
        while p.pv() in ("atomic", "volatile"):
            p.nxt()
        t = p.type()
        p.expect(",")
        p.type()
        a = p.value(PTR)
        return Inst(op, dst, t, (a,))
    if op == "store":
        while p.pv() in ("atomic", "volatile"):
            p.nxt()
        t = p.type()
        v = p.value(t)
        p.expect(",")
        p.type()
        a = p.value(PTR)
        return Inst(op, None, t, (v, a))
    if op == "getelementptr":
        while p.pv() in FLAGS:
            p.nxt()
        bt = p.type()
        p.expect(",")
        p.type()
        base = p.value(PTR)
        idx = []
        while p.accept(","):
            t = p.type()
            idx.append((t, p.value(t)))
        return Inst(op, dst, PTR, (bt, base, idx))
    if op == "phi":
        while p.pv() in FLAGS:
            p.nxt()
        t = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(t)
            p.expect(",")
            b = uq(p.nxt()[1])
            p.expect("]")
            inc.append((v, b))
            if not p.accept(","):
                break
        return Inst(op, dst, t, dict((b, v) for v, b in inc))
    if op == "select":
        while p.pv() in FLAGS:
            p.nxt()
        ct = p.type()
        c = p.value(ct)
        p.expect(",")
        t = p.type()
        a = p.value(t)
        p.expect(",")
        p.type()
        b = p.value(t)
        return Inst(op, dst, t, (c, a, b))
    if op == "br":
        if p.accept("label"):
            return Inst(op, None, VOID, (uq(p.nxt()[1]),))
        t = p.type()
        c = p.value(t)
        p.expect(",")
        p.expect("label")
        a = uq(p.nxt()[1])
        p.expect(",")
        p.expect("label")
        b = uq(p.nxt()[1])
        return Inst(op, None, VOID, (c, a, b))
    if op == "switch":
        t = p.type()
        v = p.value(t)
        p.expect(",")
        p.expect("label")
        d = uq(p.nxt()[1])
        p.expect("[")
        cases = []
        while not p.accept("]"):
            ct = p.type()
            c = p.value(ct)
            p.expect(",")
            p.expect("label")
            cases.append((c.v, uq(p.nxt()[1])))
        return Inst(op, None, t, (v, d, cases))
    if op == "ret":
        t = p.type()
        if t.k == "void":
            return Inst(op, None, t, (None,))
        return Inst(op, None, t, (p.value(t),))
    if op == "unreachable":
        return Inst(op, None, VOID, ())
    if op == "resume":
        t = p.type()
        return Inst(op, None, t, (p.value(t),))
    if op in ("call", "invoke"):
        while p.pv() in FLAGS or p.pv() in CCONV:
            p.nxt()
        p.param_attrs()
        rt = p.type()
        if p.pv() == "(":      # function type for varargs callee
            p.skip_parens()
        if p.pv() == "asm":
            raise IRError("inline asm")
        callee = p.value(PTR)
        p.expect("(")
        args = []
        if not p.accept(")"):
            while True:
                t = p.type()
                at = p.param_attrs()
                if t.k == "metadata":
                    while p.pv() not in (",", ")"):
                        p.nxt()
                    args.append((t, None, at))
                else:
                    args.append((t, p.value(t), at))
                if p.accept(")"):
                    break
                p.expect(",")
        a = dict(callee=callee, args=args)
        while p.peek()[0] in ("attr", "word"):
            k, v = p.peek()
            if k == "attr":
                p.nxt()
                continue
            if v == "to":
                p.nxt()
                p.expect("label")
                a["normal"] = uq(p.nxt()[1])
                p.expect("unwind")
                p.expect("label")
                a["unwind"] = uq(p.nxt()[1])
                continue
            p.nxt()
        return Inst(op, dst, rt, a)
    if op == "landingpad":
        t = p.type()
        clauses = []
        cleanup = False
        while p.peek()[0] == "word":
            v = p.nxt()[1]
            if v == "cleanup":
                cleanup = True
            elif v == "catch":
                ct = p.type()
                clauses.append(("catch", p.value(ct)))
            elif v == "filter":
                ct = p.type()
                clauses.append(("filter", p.value(ct)))
        return Inst(op, dst, t, (cleanup, clauses))
    if op == "extractvalue":
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(","):
            idx.append(int(p.nxt()[1]))
        return Inst(op, dst, t, (v, idx))
    if op == "insertvalue":
        t = p.type()
        v = p.value(t)
        p.expect(",")
        et = p.type()
        e = p.value(et)
        idx = []
        while p.accept(","):
            idx.append(int(p.nxt()[1]))
        return Inst(op, dst, t, (v, e, idx))
    if op == "atomicrmw":
        p.accept("volatile")
        o = p.nxt()[1]
        p.type()
        a = p.value(PTR)
        p.expect(",")
        t = p.type()
        v = p.value(t)
        return Inst(op, dst, t, (o, a, v))
    if op == "cmpxchg":
        while p.pv() in ("weak", "volatile"):
            p.nxt()
        p.type()
        a = p.value(PTR)
        p.expect(",")
        t = p.type()
        c = p.value(t)
        p.expect(",")
        p.type()
        v = p.value(t)
        return Inst(op, dst, t, (a, c, v))
    if op == "fence":
        return None
    raise IRError("unsupported instruction: " + s)


def find_loops(f):
    """natural loops: header -> set of blocks"""
    entry = f.order[0]
    # reverse post order
    seen = set()
    post = []
    st = [(entry, iter(f.blocks[entry].succs))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        adv = False
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(f.blocks[s].succs)))
                adv = True
                break
        if not adv:
            post.append(b)
            st.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in f.blocks[b].succs:
            preds[s].append(b)
    idom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            ps = [q for q in preds[b] if q in idom]
            nd = ps[0]
            for q in ps[1:]:
                x, y = q, nd
                while x != y:
                    while num[x] > num[y]:
                        x = idom[x]
                    while num[y] > num[x]:
                        y = idom[y]
                nd = x
            if idom.get(b) != nd:
                idom[b] = nd
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in f.blocks[b].succs:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                wl = [b]
                while wl:
                    x = wl.pop()
                    if x not in body:
                        body.add(x)
                        wl.extend(preds[x])
            elif num[s] <= num[b]:
                raise IRError("irreducible control flow in " + f.name)
    f.loops = loops


def find_ipdoms(f):
    """immediate post-dominators with respect to normal returns (exceptional and dead ends are ignored)"""
    rets = [b for b in f.order if f.blocks[b].insts and f.blocks[b].insts[-1].op == "ret"]
    f.ipdom = {}
    if not rets:
        return
    preds = {}
    for b in f.order:
        for s in f.blocks[b].succs:
            preds.setdefault(s, []).append(b)
    EXIT = None
    rs = {EXIT: list(rets)}
    rs.update(preds)
    post, seen = [], {EXIT}
    st = [(EXIT, iter(rs[EXIT]))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(rs.get(s, ()))))
                break
        else:
            post.append(b)
            st.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    succ = {b: [s for s in f.blocks[b].succs if s in num] for b in rpo if b is not EXIT}
    for r in rets:
        succ[r] = succ[r] + [EXIT]
    ip = {EXIT: EXIT}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            ps = [q for q in succ[b] if q in ip]
            nd = ps[0]
            for q in ps[1:]:
                x, y = q, nd
                while x != y:
                    while num[x] > num[y]:
                        x = ip[x]
                    while num[y] > num[x]:
                        y = ip[y]
                nd = x
            if ip.get(b, b) != nd or b not in ip:
                ip[b] = nd
                changed = True
    f.ipdom = {b: p for b, p in ip.items() if b is not EXIT and p is not EXIT}
