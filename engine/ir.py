"""Parser for the textual LLVM IR clang emits (the subset C code needs)."""
import re

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*"            # byte string
 | "(?:[^"\\]|\\.)*"             # string
 | [%@](?:"[^"]*"|[-\w.$]+)      # names
 | !(?:[-\w.$]+)?                # metadata
 | \#\d+
 | -?\d+\.\d+(?:e[+-]?\d+)?
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | -?\d+
 | \.\.\.
 | [A-Za-z_][\w.]*:?
 | [()\[\]{}<>,=*|]
''', re.X)


class IRError(Exception):
    pass


# ------------------------------------------------------------------ types
# ('i', n) ('ptr',) ('void',) ('arr', n, t) ('vec', n, t) ('st', [t...], packed)
# ('named', name) ('fn', ret, args, vararg) ('label',) ('metadata',) ('fp', name)

PTR = ("ptr",)
VOID = ("void",)


class Layout:
    def __init__(self, s):
        self.s = s
        self.big = s.startswith("E")
        self.ptr = 64
        self.ialign = {1: 1, 8: 1, 16: 2, 32: 4, 64: 4, 128: 16}
        self.i128 = False
        self.valign = {}
        for p in s.split("-"):
            m = re.match(r"^p(?:0)?:(\d+):(\d+)", p)
            if m:
                self.ptr = int(m.group(1))
            m = re.match(r"^i(\d+):(\d+)", p)
            if m:
                self.ialign[int(m.group(1))] = int(m.group(2)) // 8
                if m.group(1) == "128":
                    self.i128 = True
        if not self.i128:
            self.ialign[128] = self.ialign[64]


class Module:
    def __init__(self, text, name=""):
        self.name = name
        self.layout = None
        self.triple = ""
        self.types = {}
        self.globals = {}      # name -> (type, init tokens parsed const|None, is_const, internal)
        self.funcs = {}        # name -> Func
        self.decls = {}
        self.ifuncs = {}
        self.aliases = {}
        self.parse(text)

    # -------- sizes
    def resolve(self, t):
        while t[0] == "named":
            t = self.types[t[1]]
        return t

    def bits(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == "i":
            return t[1]
        if k == "ptr":
            return self.layout.ptr
        if k == "vec":
            return t[1] * self.bits(t[2])
        return self.size(t) * 8

    def size(self, t):
        """store/alloc size in bytes (alloc size for aggregates)"""
        t = self.resolve(t)
        k = t[0]
        if k == "i":
            s = (t[1] + 7) // 8
            a = self.align(t)
            return (s + a - 1) // a * a
        if k == "ptr":
            return self.layout.ptr // 8
        if k == "arr":
            return t[1] * self.size(t[2])
        if k == "vec":
            return (t[1] * self.bits(t[2]) + 7) // 8
        if k == "st":
            return self.fields(t)[1]
        if k == "fp":
            return {"float": 4, "double": 8}.get(t[1], 16)
        raise IRError("size of %r" % (t,))

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == "i":
            n = t[1]
            for b in (1, 8, 16, 32, 64, 128):
                if n <= b:
                    return self.layout.ialign[b]
            return self.layout.ialign[128]
        if k == "ptr":
            return self.layout.ptr // 8
        if k == "arr":
            return self.align(t[2])
        if k == "vec":
            return self.size(t)
        if k == "st":
            if t[2] or not t[1]:
                return 1
            return max(self.align(x) for x in t[1])
        if k == "fp":
            return self.size(t)
        raise IRError("align of %r" % (t,))

    def fields(self, t):
        t = self.resolve(t)
        off = 0
        offs = []
        al = 1
        for x in t[1]:
            a = 1 if t[2] else self.align(x)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        off = (off + al - 1) // al * al
        return offs, off

    # -------- parsing
    def parse(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        self.dilines = dict(DILOC.findall(text))
        while i < n:
            l = lines[i]
            i += 1
            if not l or l[0] == ";":
                continue
            if l.startswith(("declare", "define")):
                l = re.sub(r' !dbg !\d+', '', l)
            elif l[0] == "@" and ", !dbg" in l:
                l = re.sub(r', !dbg !\d+', '', l)
            if l.startswith("target datalayout"):
                self.layout = Layout(l.split('"')[1])
            elif l.startswith("target triple"):
                self.triple = l.split('"')[1]
            elif l.startswith("%"):
                name, rest = l.split(" = type ", 1)
                if rest.strip() == "opaque":
                    self.types[name[1:].strip('"')] = ("st", [], False)
                else:
                    self.types[name[1:].strip('"')] = P(self, rest).type()
            elif l.startswith("@"):
                self.parse_global(l)
            elif l.startswith("declare"):
                p = P(self, l)
                self.parse_header(p, True)
            elif l.startswith("define"):
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                i += 1
                self.parse_func(l, body)

    LINK = {"private", "internal", "external", "hidden", "dso_local", "protected", "default",
            "linkonce", "linkonce_odr", "weak", "weak_odr", "common", "appending",
            "unnamed_addr", "local_unnamed_addr", "extern_weak", "available_externally",
            "dllexport", "dllimport", "externally_initialized", "thread_local", "dso_preemptable"}

    def parse_global(self, l):
        p = P(self, l)
        name = p.next()[1:].strip('"')
        p.expect("=")
        internal = external = False
        while p.peek() in self.LINK or p.peek() == "addrspace":
            t = p.next()
            if t in ("private", "internal"):
                internal = True
            if t in ("external", "extern_weak"):
                external = True
            if p.peek() == "(":
                p.skip_parens()
        k = p.next()
        if k == "ifunc":
            p.type()
            p.expect(",")
            p.type()
            self.ifuncs[name] = p.next()[1:].strip('"')
            return
        if k == "alias":
            p.type()
            p.expect(",")
            p.type()
            self.aliases[name] = p.next()[1:].strip('"')
            return
        if k not in ("global", "constant"):
            raise IRError("global: " + l)
        ty = p.type()
        init = None
        if not external:
            init = p.const(ty)
        self.globals[name] = (ty, init, k == "constant", internal)

    CC = {"fastcc", "coldcc", "ccc", "x86_stdcallcc", "x86_fastcallcc"}

    def parse_header(self, p, decl):
        p.next()
        while True:
            t = p.peek()
            if t in self.LINK or t in self.CC or t in P.ATTRS:
                p.next()
                if p.peek() == "(":
                    p.skip_parens()
                elif t in ("align",):
                    p.next()
                continue
            break
        ret = p.type()
        name = p.next()[1:].strip('"')
        p.expect("(")
        args = []
        vararg = False
        idx = 0
        while p.peek() != ")":
            if p.peek() == "...":
                p.next()
                vararg = True
                break
            ty = p.type()
            byval = p.attrs()
            an = None
            if p.peek() and p.peek()[0] == "%":
                an = p.next()[1:].strip('"')
            else:
                an = str(idx)
            idx += 1
            args.append((ty, an, byval))
            if p.peek() == ",":
                p.next()
        f = Func(self, name, ret, args)
        f.vararg = vararg
        f.line = p.line
        if decl:
            self.decls[name] = f
        return f

    def parse_func(self, head, body):
        f = self.parse_header(P(self, head), False)
        f.internal = " internal " in head or " private " in head
        self.funcs[f.name] = f
        blocks = f.blocks
        cur = None
        j = 0
        n = len(body)
        while j < n:
            l = body[j]
            j += 1
            if not l.strip():
                continue
            if not l.startswith(" "):
                m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
                if not m:
                    raise IRError("label? " + l)
                cur = m.group(1).strip('"')
                blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                # implicit entry label: next unnamed number
                cur = str(sum(1 for a in f.args if a[1].isdigit()))
                blocks[cur] = []
                f.order.append(cur)
            if " switch " in l and "]" not in l:
                while "]" not in body[j]:
                    l += " " + body[j]
                    j += 1
                l += " " + body[j]
                j += 1
            m = META.search(l)
            dbg = None
            if m:
                d = DBG.search(m.group(0))
                dbg = d.group(1) if d else None
                l = l[:m.start()]
            ins = P(self, l).instr()
            if ins is not None:
                if dbg is not None:
                    ins.line = "line %s: %s" % (self.dilines.get(dbg, "?"), ins.line)
                blocks[cur].append(ins)
        f.entry = f.order[0]


META = re.compile(r'(?:, ![\w.]+ (?:!\d+|![{][^}]*[}]))+\s*$')
DBG = re.compile(r'!dbg !(\d+)')
DILOC = re.compile(r'^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', re.M)


class Func:
    def __init__(self, mod, name, ret, args):
        self.mod = mod
        self.name = name
        self.ret = ret
        self.args = args
        self.blocks = {}
        self.order = []
        self.entry = None
        self.internal = False
        self._cfg = None

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == "br":
            return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == "switch":
            s = [t.a[1]]
            for _, l in t.a[2]:
                if l not in s:
                    s.append(l)
            return s
        return []

    def cfg(self):
        """(ipdom map, set of loop headers, loop bodies {header:set})"""
        if self._cfg:
            return self._cfg
        EXIT = None
        succ = {b: self.succs(b) for b in self.order}
        # post-dominators by iteration over sets
        pd = {b: None for b in self.order}      # None = all
        exits = [b for b in self.order if not succ[b] and self.blocks[b][-1].op == "ret"]
        for b in exits:
            pd[b] = {b}
        changed = True
        rev = list(reversed(self.order))
        while changed:
            changed = False
            for b in rev:
                if b in exits:
                    continue
                ss = [pd[s] for s in succ[b] if pd[s] is not None]
                if not ss:
                    continue
                x = set.intersection(*ss) | {b}
                if pd[b] is None or x != pd[b]:
                    pd[b] = x
                    changed = True
        ip = {}
        for b in self.order:
            if pd[b] is None:
                ip[b] = EXIT
                continue
            cand = pd[b] - {b}
            best = EXIT
            for c in cand:
                # the closest: the one whose pdom set equals cand
                if pd[c] is not None and len(pd[c]) == len(cand):
                    best = c
            ip[b] = best
        # dominators for natural loops
        dom = {b: None for b in self.order}
        dom[self.entry] = {self.entry}
        preds = {b: [] for b in self.order}
        for b in self.order:
            for s in succ[b]:
                preds[s].append(b)
        changed = True
        while changed:
            changed = False
            for b in self.order:
                if b == self.entry:
                    continue
                ps = [dom[p] for p in preds[b] if dom[p] is not None]
                if not ps:
                    continue
                x = set.intersection(*ps) | {b}
                if dom[b] is None or x != dom[b]:
                    dom[b] = x
                    changed = True
        loops = {}
        for b in self.order:
            if dom[b] is None:
                continue
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(preds[x])
        self._cfg = (ip, loops)
        return self._cfg


class Instr:
    __slots__ = ("op", "res", "t", "a", "x", "line")

    def __init__(self, op, res, t, a, x=None):
        self.op = op
        self.res = res
        self.t = t
        self.a = a
        self.x = x
        self.line = ""

    def __repr__(self):
        return "%s = %s %r" % (self.res, self.op, self.a)


# operands: ('r', name) | ('k', const)   consts: see P.const
class P:
    ATTRS = {"noundef", "nonnull", "zeroext", "signext", "inreg", "noalias", "nocapture",
             "readonly", "readnone", "writeonly", "returned", "immarg", "nest", "noreturn",
             "swiftself", "dead_on_unwind", "writable", "nofree", "align", "dereferenceable",
             "dereferenceable_or_null", "byval", "sret", "captures", "range", "allocalign",
             "memory", "initializes"}

    def __init__(self, mod, line):
        self.mod = mod
        self.line = line
        c = line
        self.toks = TOK.findall(c)
        self.i = 0

    def peek(self, d=0):
        j = self.i + d
        return self.toks[j] if j < len(self.toks) else None

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def expect(self, t):
        x = self.next()
        if x != t:
            raise IRError("expected %s got %s in: %s" % (t, x, self.line))

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            t = self.next()
            d += (t == "(") - (t == ")")

    def attrs(self):
        byval = None
        while self.peek() in self.ATTRS:
            a = self.next()
            if a == "align":
                if self.peek() == "(":
                    self.skip_parens()
                else:
                    self.next()
            elif self.peek() == "(":
                if a in ("byval", "sret"):
                    self.next()
                    byval = (a, self.type())
                    self.expect(")")
                else:
                    self.skip_parens()
        return byval

    def type(self):
        t = self.next()
        r = None
        if t == "ptr":
            r = PTR
            if self.peek() == "addrspace":
                self.next()
                self.skip_parens()
        elif t == "void":
            r = VOID
        elif t == "label":
            r = ("label",)
        elif t == "metadata":
            r = ("metadata",)
        elif t in ("float", "double", "x86_fp80", "half", "fp128", "x86_mmx"):
            r = ("fp", t)
        elif re.match(r"^i\d+$", t):
            r = ("i", int(t[1:]))
        elif t == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            r = ("arr", n, e)
        elif t == "<":
            if self.peek() == "{":
                self.next()
                xs = []
                while self.peek() != "}":
                    xs.append(self.type())
                    if self.peek() == ",":
                        self.next()
                self.expect("}")
                self.expect(">")
                r = ("st", xs, True)
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                r = ("vec", n, e)
        elif t == "{":
            xs = []
            while self.peek() != "}":
                xs.append(self.type())
                if self.peek() == ",":
                    self.next()
            self.expect("}")
            r = ("st", xs, False)
        elif t[0] == "%":
            r = ("named", t[1:].strip('"'))
        else:
            raise IRError("type? %s in %s" % (t, self.line))
        if self.peek() == "(":      # function type
            # only when a parameter list of types follows
            save = self.i
            try:
                self.next()
                args = []
                va = False
                while self.peek() != ")":
                    if self.peek() == "...":
                        self.next()
                        va = True
                        break
                    args.append(self.type())
                    self.attrs()
                    if self.peek() == ",":
                        self.next()
                self.expect(")")
                r = ("fn", r, args, va)
            except (IRError, IndexError):
                self.i = save
        return r

    # constants: ('int',t,v) ('null',) ('zero',t) ('undef',t) ('poison',t) ('agg',t,[..])
    # ('str',bytes) ('g',name) ('gep',basety,[operands consts]) ('cast',op,const,from,to)
    # ('bin',op,a,b)
    def const(self, ty):
        t = self.peek()
        if t == "{" or t == "[" or t == "<":
            self.next()
            close = {"{": "}", "[": "]", "<": ">"}[t]
            packed = False
            if t == "<" and self.peek() == "{":
                self.next()
                close = "}"
                packed = True
            xs = []
            while self.peek() != close:
                et = self.type()
                self.attrs()
                xs.append((et, self.const(et)))
                if self.peek() == ",":
                    self.next()
            self.expect(close)
            if packed:
                self.expect(">")
            return ("agg", ty, xs)
        t = self.next()
        if t == "zeroinitializer":
            return ("zero", ty)
        if t == "null":
            return ("null",)
        if t == "undef":
            return ("undef", ty)
        if t == "poison":
            return ("poison", ty)
        if t == "true":
            return ("int", ty, 1)
        if t == "false":
            return ("int", ty, 0)
        if t[0] == "@":
            return ("g", t[1:].strip('"'))
        if t.startswith('c"'):
            return ("str", unescape(t[2:-1]))
        if re.match(r"^-?\d+$", t):
            return ("int", ty, int(t))
        if t == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                self.next()
            self.expect("(")
            bt = self.type()
            ops = []
            while self.peek() == ",":
                self.next()
                if self.peek() == "inrange":
                    self.next()
                ot = self.type()
                ops.append((ot, self.const(ot)))
            self.expect(")")
            return ("gep", bt, ops)
        if t in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext"):
            self.expect("(")
            ft = self.type()
            c = self.const(ft)
            self.expect("to")
            tt = self.type()
            self.expect(")")
            return ("cast", t, c, ft, tt)
        if t in ("add", "sub", "xor", "and", "or", "shl", "lshr", "mul"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            at = self.type()
            a = self.const(at)
            self.expect(",")
            bt = self.type()
            b = self.const(bt)
            self.expect(")")
            return ("bin", t, a, b, at)
        if t == "icmp":
            pred = self.next()
            self.expect("(")
            at = self.type()
            a = self.const(at)
            self.expect(",")
            bt = self.type()
            b = self.const(bt)
            self.expect(")")
            return ("icmp", pred, a, b, at)
        if t == "select":
            self.expect("(")
            ct = self.type()
            c = self.const(ct)
            self.expect(",")
            at = self.type()
            a = self.const(at)
            self.expect(",")
            bt = self.type()
            b = self.const(bt)
            self.expect(")")
            return ("select", c, a, b, at)
        if t == "asm":
            raise IRError("asm const")
        raise IRError("const? %s in %s" % (t, self.line))

    def operand(self, ty):
        t = self.peek()
        if t[0] == "%":
            self.next()
            return ("r", t[1:].strip('"'))
        return ("k", ty, self.const(ty))

    BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr",
           "and", "or", "xor"}
    CAST = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"}

    def instr(self):
        res = None
        if self.peek()[0] == "%" and self.peek(1) == "=":
            res = self.next()[1:].strip('"')
            self.next()
        op = self.next()
        ins = self._instr(op, res)
        if ins is not None:
            ins.line = self.line.strip()
        return ins

    def _instr(self, op, res):
        if op in ("tail", "musttail", "notail"):
            op = self.next()
        if op in self.BIN:
            flags = set()
            while self.peek() in ("nuw", "nsw", "exact", "disjoint"):
                flags.add(self.next())
            ty = self.type()
            a = self.operand(ty)
            self.expect(",")
            b = self.operand(ty)
            return Instr(op, res, ty, (a, b), flags)
        if op in self.CAST:
            while self.peek() in ("nneg", "nuw", "nsw"):
                self.next()
            ft = self.type()
            a = self.operand(ft)
            self.expect("to")
            tt = self.type()
            return Instr(op, res, tt, (a,), ft)
        if op == "icmp":
            if self.peek() == "samesign":
                self.next()
            pred = self.next()
            ty = self.type()
            a = self.operand(ty)
            self.expect(",")
            b = self.operand(ty)
            return Instr("icmp", res, ty, (a, b), pred)
        if op == "load":
            atomic = False
            vol = False
            while self.peek() in ("volatile", "atomic"):
                self.next()
            ty = self.type()
            self.expect(",")
            self.type()
            a = self.operand(PTR)
            al = self._align()
            return Instr("load", res, ty, (a,), al)
        if op == "store":
            while self.peek() in ("volatile", "atomic"):
                self.next()
            ty = self.type()
            v = self.operand(ty)
            self.expect(",")
            self.type()
            a = self.operand(PTR)
            al = self._align()
            return Instr("store", None, ty, (v, a), al)
        if op == "alloca":
            if self.peek() == "inalloca":
                self.next()
            ty = self.type()
            cnt = None
            al = None
            while self.peek() == ",":
                self.next()
                if self.peek() == "align":
                    self.next()
                    al = int(self.next())
                elif self.peek() == "addrspace":
                    self.next()
                    self.skip_parens()
                else:
                    ct = self.type()
                    cnt = (ct, self.operand(ct))
            return Instr("alloca", res, ty, (cnt,), al)
        if op == "getelementptr":
            inb = False
            while self.peek() in ("inbounds", "nuw", "nusw"):
                self.next()
                inb = True
            bt = self.type()
            self.expect(",")
            self.type()
            base = self.operand(PTR)
            idx = []
            while self.peek() == ",":
                self.next()
                it = self.type()
                idx.append((it, self.operand(it)))
            return Instr("gep", res, bt, (base, idx), inb)
        if op == "br":
            if self.peek() == "label":
                self.next()
                return Instr("br", None, None, (self.next()[1:].strip('"'),))
            self.type()
            c = self.operand(("i", 1))
            self.expect(",")
            self.expect("label")
            t = self.next()[1:].strip('"')
            self.expect(",")
            self.expect("label")
            f = self.next()[1:].strip('"')
            return Instr("br", None, None, (c, t, f))
        if op == "switch":
            ty = self.type()
            v = self.operand(ty)
            self.expect(",")
            self.expect("label")
            d = self.next()[1:].strip('"')
            self.expect("[")
            cases = []
            while self.peek() != "]":
                self.type()
                k = int(self.next())
                self.expect(",")
                self.expect("label")
                cases.append((k, self.next()[1:].strip('"')))
            return Instr("switch", None, ty, (v, d, cases))
        if op == "phi":
            ty = self.type()
            inc = []
            while self.peek() == "[":
                self.next()
                v = self.operand(ty)
                self.expect(",")
                inc.append((v, self.next()[1:].strip('"')))
                self.expect("]")
                if self.peek() == ",":
                    self.next()
            return Instr("phi", res, ty, inc)
        if op == "select":
            ct = self.type()
            c = self.operand(ct)
            self.expect(",")
            ty = self.type()
            a = self.operand(ty)
            self.expect(",")
            self.type()
            b = self.operand(ty)
            return Instr("select", res, ty, (c, a, b), ct)
        if op == "ret":
            ty = self.type()
            if ty == VOID:
                return Instr("ret", None, VOID, ())
            return Instr("ret", None, ty, (self.operand(ty),))
        if op == "unreachable":
            return Instr("unreachable", None, None, ())
        if op == "call":
            return self._call(res)
        if op in ("extractelement",):
            vt = self.type()
            v = self.operand(vt)
            self.expect(",")
            it = self.type()
            i = self.operand(it)
            return Instr(op, res, vt, (v, i))
        if op == "insertelement":
            vt = self.type()
            v = self.operand(vt)
            self.expect(",")
            et = self.type()
            e = self.operand(et)
            self.expect(",")
            it = self.type()
            i = self.operand(it)
            return Instr(op, res, vt, (v, e, i))
        if op == "shufflevector":
            vt = self.type()
            a = self.operand(vt)
            self.expect(",")
            self.type()
            b = self.operand(vt)
            self.expect(",")
            mt = self.type()
            m = self.const(mt)
            return Instr(op, res, vt, (a, b, m), mt)
        if op == "extractvalue":
            at = self.type()
            a = self.operand(at)
            ix = []
            while self.peek() == ",":
                self.next()
                if self.peek()[0] == "!":
                    break
                ix.append(int(self.next()))
            return Instr(op, res, at, (a, ix))
        if op == "insertvalue":
            at = self.type()
            a = self.operand(at)
            self.expect(",")
            et = self.type()
            e = self.operand(et)
            ix = []
            while self.peek() == ",":
                self.next()
                if self.peek()[0] == "!":
                    break
                ix.append(int(self.next()))
            return Instr(op, res, at, (a, e, ix))
        if op == "freeze":
            ty = self.type()
            return Instr(op, res, ty, (self.operand(ty),))
        if op == "fence":
            return None
        raise IRError("instruction %s: %s" % (op, self.line))

    def _align(self):
        al = None
        while self.peek() == ",":
            self.next()
            if self.peek() == "align":
                self.next()
                al = int(self.next())
            else:
                break
        return al

    def _call(self, res):
        while True:
            t = self.peek()
            if t in Module.CC or t in self.ATTRS or t in ("fast", "nnan", "nsz"):
                self.next()
                if t == "align":
                    self.next()
                elif self.peek() == "(" and t in self.ATTRS:
                    self.skip_parens()
                continue
            break
        rt = self.type()
        fty = None
        if rt[0] == "fn":
            fty = rt
            rt = rt[1]
        t = self.peek()
        if t == "asm":
            self.next()
            while self.peek() in ("sideeffect", "alignstack", "inteldialect", "unwind"):
                self.next()
            code = self.next()[1:-1]
            self.expect(",")
            cons = self.next()[1:-1]
            callee = ("asm", code, cons)
        elif t[0] == "%":
            self.next()
            callee = ("r", t[1:].strip('"'))
        elif t[0] == "@":
            self.next()
            callee = ("f", t[1:].strip('"'))
        else:
            callee = ("k", PTR, self.const(PTR))
        self.expect("(")
        args = []
        while self.peek() != ")":
            ty = self.type()
            byval = self.attrs()
            if ty == ("metadata",):
                # skip metadata operand
                d = 0
                while not (d == 0 and self.peek() in (",", ")")):
                    x = self.next()
                    d += (x == "(") - (x == ")")
                args.append((ty, None, None))
            else:
                args.append((ty, self.operand(ty), byval))
            if self.peek() == ",":
                self.next()
        self.expect(")")
        bundles = []
        # operand bundles on llvm.assume
        while self.peek() is not None and self.peek() != ",":
            t = self.next()
            if t == "[":
                while self.peek() != "]":
                    nm = self.next()
                    if nm == ",":
                        continue
                    bops = []
                    if self.peek() == "(":
                        self.next()
                        while self.peek() != ")":
                            bt = self.type()
                            bops.append((bt, self.operand(bt)))
                            if self.peek() == ",":
                                self.next()
                        self.expect(")")
                    bundles.append((nm.strip('"'), bops))
                self.next()
                break
        return Instr("call", res, rt, (callee, args), bundles)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)
