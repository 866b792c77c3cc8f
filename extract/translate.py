#!/usr/bin/env python3
"""Mechanical extraction of the C++ functions of /repo into Verus.

Every function body is re-generated from clang's AST on every run; contracts
(pre/postconditions, invariants, ghost code) come from /verif/contracts and are
attached by function and by structural anchors.  What the extraction drops or
models is listed in DESIGN.md ("What the extraction drops").
"""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cxxast
from cxxast import parse_type, node_type, is_const, ExtractError, strip_ns

RT = {"u8": "u8", "char": "u8", "u16": "u16", "u32": "u32", "u64": "u64", "i16": "i16", "i32": "i32", "i64": "i64",
      "bool": "bool", "Str": "Str", "m128": "M128", "void": "()"}
BITS = {"u8": 8, "char": 8, "u16": 16, "u32": 32, "u64": 64, "i16": 16, "i32": 32, "i64": 64}
INTS = set(BITS)
RC_CLASSES = {"LoudsDense", "LoudsSparse"}
KEYWORDS = {"type", "match", "in", "fn", "mod", "use", "loop", "move", "ref", "self", "impl", "where",
            "box", "final", "override", "priv", "yield", "try", "as", "final", "old", "spec", "proof",
            "exec", "int", "nat", "open", "closed", "forall", "exists", "choose", "assume", "assert",
            "requires", "ensures", "invariant", "decreases", "via", "by", "broadcast", "tracked", "ghost"}


class Unsupported(Exception):
    pass


def rty(t):
    if isinstance(t, str):
        if t in RT:
            return RT[t]
        raise Unsupported("type " + t)
    k = t[0]
    if k == "vec":
        return "Vec<%s>" % rty(t[1])
    if k == "class":
        return t[1]
    if k == "ptr":
        e = t[1]
        if isinstance(e, str) and e in INTS | {"bool"}:
            return "Vec<%s>" % rty(e)
        if e[0] == "class":
            return "Arc<%s>" % e[1] if e[1] in RC_CLASSES else e[1]
    if k in ("ref", "rref"):
        return rty(t[1])
    if k == "opaque":
        return "Opaque"
    raise Unsupported("type %r" % (t,))


def field_type(y):
    """a field of a type outside the supported ones is kept, and a function that touches it is not translated"""
    try:
        t = node_type(y)
        rty(t)
        return t
    except (ExtractError, Unsupported):
        return ("opaque", y.get("type", {}).get("qualType", "?"))


def rname(s):
    return s + "_" if s in KEYWORDS else s


class V:
    """A value: Rust expression text, type, constant, or a pointer/place."""
    __slots__ = ("code", "ty", "const", "place", "mem", "lv")

    def __init__(self, code, ty, const=None, place=None, mem=None, lv=None):
        self.code, self.ty, self.const, self.place, self.mem, self.lv = code, ty, const, place, mem, lv


class Place:
    """A Rust place expression. ref: None | '&' | '&mut' | 'Rc' (how `code` itself is held)."""
    __slots__ = ("code", "ref", "ty", "mutable")

    def __init__(self, code, ty, ref=None):
        self.code, self.ty, self.ref = code, ty, ref

    def read(self):
        if self.ref in ("&", "&mut"):
            return "(*%s)" % self.code
        return self.code

    def borrow(self):
        if self.ref == "&":
            return self.code
        if self.ref in ("&mut", "Rc"):
            return "&*%s" % self.code
        return "&%s" % self.code

    def borrow_mut(self):
        if self.ref == "&mut":
            return self.code
        if self.ref is None:
            return "&mut %s" % self.code
        raise Unsupported("mutable borrow of " + self.code)


class Mem:
    """A pointer into a buffer: region (Place of a Vec) and an offset (u64 expression)."""
    __slots__ = ("region", "off", "elem", "const0", "view")

    def __init__(self, region, off, elem, const0=False, view=None):
        self.region, self.off, self.elem, self.const0 = region, off, elem, const0
        self.view = view     # set: bytes read as integers of this type (off counts bytes)


def lit(v, ty):
    if ty == "bool":
        return "true" if v else "false"
    b = BITS[ty]
    v &= (1 << b) - 1
    if ty in ("i16", "i32", "i64"):
        if v >= 1 << (b - 1):
            v -= 1 << b
        if v < 0:
            return "(%d%s)" % (v, ty)
        return "%d%s" % (v, ty)
    return "%d%s" % (v, RT[ty])


def wrap(v, ty):
    if ty == "bool":
        return 1 if v else 0
    b = BITS[ty]
    v &= (1 << b) - 1
    if ty in ("i16", "i32", "i64", "char") and v >= 1 << (b - 1):
        v -= 1 << b
    return v


class Field:
    def __init__(self, name, ty):
        self.name, self.ty = name, ty


class Func:
    pass


class Program:
    def __init__(self, roots):
        self.classes = {}      # rust name -> dict(fields=[...], base=)
        self.funcs = {}        # ast id -> Func (canonical)
        self.flist = []
        self.consts = {}       # var id -> (value, ty)
        self.enum = {}
        self.fieldname = {}
        self.prev = {}         # redeclaration id -> first id
        self.bench = False
        for r in roots:
            self.bench = r.get("name") == cxxast.BENCH
            self.scan(r, None)
        self.resolve()

    # ---- collection
    def scan(self, n, cls):
        for x in n.get("inner", []):
            k = x.get("kind")
            if x.get("isImplicit"):
                continue
            if k == "NamespaceDecl":
                saved = self.bench
                self.bench = saved or x.get("name") == cxxast.BENCH
                self.scan(x, None)
                self.bench = saved
            elif k == "TypeAliasDecl" or k == "TypedefDecl":
                t = x["type"]
                cxxast.ALIAS[x["name"]] = t.get("desugaredQualType", t["qualType"])
            elif k == "VarDecl":
                self.constant(x)
            elif k == "EnumDecl":
                val = -1
                for e in x.get("inner", []):
                    if e["kind"] != "EnumConstantDecl":
                        continue
                    iv = [self.const_of(y) for y in e.get("inner", [])]
                    val = iv[0] if iv and iv[0] is not None else val + 1
                    self.enum[e["id"]] = val
                    self.enum[e["name"]] = val
            elif k == "CXXRecordDecl":
                if not x.get("completeDefinition"):
                    continue
                name = (cls + "_" if cls else "") + x["name"]
                bases = [b["type"]["qualType"] for b in x.get("bases", [])]
                c = {"name": name, "fields": [], "base": None, "line": x.get("_line"), "file": x.get("_file")}
                if bases:
                    c["base"] = strip_ns(bases[0]).replace("::", "_")
                self.classes[name] = c
                self.classes_by_id = getattr(self, "classes_by_id", {})
                self.classes_by_id[x["id"]] = name
                for y in x.get("inner", []):
                    if y.get("kind") == "FieldDecl":
                        c["fields"].append((y["name"], field_type(y), y["id"], y))
                self.scan(x, name)
            elif k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl"):
                self.function(x, cls)
            elif k in ("CXXDestructorDecl", "AccessSpecDecl", "FieldDecl", "FriendDecl",
                       "FullComment", "CXXDeductionGuideDecl"):
                pass

    def constant(self, x):
        try:
            ty = node_type(x)
        except ExtractError:
            return
        if ty not in INTS and ty != "bool":
            return
        v = None
        for y in x.get("inner", []):
            v = self.const_of(y)
        if v is not None and is_const(x["type"]["qualType"]):
            self.consts[x["id"]] = (wrap(v, ty), ty)

    def const_of(self, n):
        k = n.get("kind")
        inner = [y for y in n.get("inner", []) if isinstance(y, dict)]
        if k == "IntegerLiteral":
            return int(n["value"])
        if k == "CXXBoolLiteralExpr":
            return 1 if n["value"] else 0
        if k == "CharacterLiteral":
            return int(n["value"])
        if k == "ConstantExpr" and "value" in n:
            return int(n["value"])
        if k in ("ImplicitCastExpr", "ParenExpr", "ConstantExpr", "CStyleCastExpr", "CXXStaticCastExpr",
                 "CXXFunctionalCastExpr"):
            v = self.const_of(inner[0])
            if v is None:
                return None
            try:
                t = node_type(n)
            except ExtractError:
                return None
            return wrap(v, t) if t in BITS or t == "bool" else v
        if k == "DeclRefExpr":
            r = n["referencedDecl"]
            if r["id"] in self.consts:
                return self.consts[r["id"]][0]
            if r["kind"] == "EnumConstantDecl":
                return self.enum.get(r["id"])
            return None
        if k == "UnaryOperator" and n["opcode"] in "-~":
            v = self.const_of(inner[0])
            return None if v is None else wrap(-v if n["opcode"] == "-" else ~v, node_type(n))
        if k == "BinaryOperator":
            a, b = self.const_of(inner[0]), self.const_of(inner[1])
            if a is None or b is None:
                return None
            return fold(n["opcode"], a, b, node_type(n))
        return None

    def function(self, x, cls):
        f = Func()
        body = [y for y in x.get("inner", []) if y.get("kind") == "CompoundStmt"]
        f.node, f.body = x, (body[0] if body else None)
        f.name, f.kind = x["name"], x["kind"]
        f.id = x["id"]
        prev = x.get("previousDecl")
        f.inits = [y for y in x.get("inner", []) if y.get("kind") == "CXXCtorInitializer"]
        f.params = [y for y in x.get("inner", []) if y.get("kind") == "ParmVarDecl"]
        if prev:
            first = self.prev.get(prev, prev)
            self.prev[x["id"]] = first
            g = self.funcs[first]
            if f.body is not None:
                g.node_def, g.body, g.params, g.inits = x, f.body, f.params, f.inits
                g.line, g.file, g.endline = x.get("_rline"), x.get("_file"), x.get("_eline")
            return
        f.node_def = x
        f.cls = cls
        if self.bench and cls is None:
            f.name = "bench_" + f.name
        f.static = x.get("storageClass") == "static" or cls is None
        f.ctor = f.kind == "CXXConstructorDecl"
        q = x["type"]["qualType"]
        f.const = bool(re.search(r"\)\s*const\b", q))
        f.line, f.file, f.endline = x.get("_rline"), x.get("_file"), x.get("_eline")
        r = q[:q.index("(")].strip()
        f.rets = r
        self.funcs[x["id"]] = f
        self.flist.append(f)

    def resolve(self):
        names = {}
        for f in self.flist:
            if f.ctor:
                base = "new_%d" % len(f.params)
            else:
                base = f.name.replace("operator++", "op_inc").replace("operator--", "op_dec") \
                    .replace("operator[]", "op_index").replace("operator ", "op_")
                base = re.sub(r"[^A-Za-z0-9_]", "_", base)
            f.base = base
            names.setdefault((f.cls, base), []).append(f)
        for (cls, base), fs in names.items():
            for f in fs:
                f.rname = base
                if len(fs) > 1:
                    f.rname = base + "".join("_" + self.short(p) for p in f.params)
                f.rname = rname(f.rname)
                f.key = ((cls + "::") if cls else "") + f.rname
        self.bykey = {f.key: f for f in self.flist}
        for f in self.flist:
            f.ret_t = None
            try:
                f.ret_t = parse_type(f.rets) if not f.ctor else "void"
            except ExtractError:
                pass
            self.param_modes(f)
        # memory access modes of cursor parameters: fixpoint
        changed = True
        while changed:
            changed = False
            for f in self.flist:
                if f.body is None:
                    continue
                for p in f.pmodes:
                    if p["mode"] in ("cursor", "cursorref"):
                        m = self.mem_use(f, p)
                        if m != p["acc"]:
                            p["acc"] = m
                            changed = True

        # methods that are not declared const but change nothing reachable from `this`
        for f in self.flist:
            f.eff_const = f.const or (f.cls is not None and not f.ctor and not f.static and f.body is not None)
        changed = True
        while changed:
            changed = False
            for f in self.flist:
                if f.eff_const and not f.const and self.touches_this(f.body):
                    f.eff_const = False
                    changed = True
        for f in self.flist:
            f.const = f.eff_const

    def this_rooted(self, n):
        k = n.get("kind")
        if k == "CXXThisExpr":
            return True
        inner = [y for y in n.get("inner", []) if isinstance(y, dict)]
        if k in ("MemberExpr", "ParenExpr", "ArraySubscriptExpr") or (
                k == "ImplicitCastExpr" and n.get("castKind") in
                ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "LValueToRValue")):
            return bool(inner) and self.this_rooted(inner[0])
        return False

    def touches_this(self, n):
        k = n.get("kind")
        if k == "CXXThisExpr":
            return True
        inner = [y for y in n.get("inner", []) if isinstance(y, dict)]
        if k == "ImplicitCastExpr" and n.get("castKind") == "LValueToRValue" and self.this_rooted(inner[0]):
            # a plain read; a pointer to a class leads to another object, a buffer pointer to own storage
            if "*" in n["type"]["qualType"]:
                try:
                    t = node_type(n)
                except ExtractError:
                    return True
                if not (isinstance(t[1], tuple) and t[1][0] == "class"):
                    return True
            return any(self.touches_this(y) for y in self.subscripts(inner[0]))
        if k == "ImplicitCastExpr" and n.get("castKind") == "NoOp" and self.this_rooted(inner[0]) and \
                n["type"]["qualType"].startswith("const "):
            return any(self.touches_this(y) for y in self.subscripts(inner[0]))
        if k == "CXXMemberCallExpr":
            m = inner[0]
            if m.get("kind") == "MemberExpr" and self.this_rooted(m["inner"][0]):
                i = m.get("referencedMemberDecl")
                g = self.funcs.get(self.prev.get(i, i))
                if g is not None and g.eff_const:
                    return any(self.touches_this(y) for y in inner[1:])
        return any(self.touches_this(y) for y in inner)

    def subscripts(self, n):
        out = []
        while n.get("kind") != "CXXThisExpr":
            inner = [y for y in n.get("inner", []) if isinstance(y, dict)]
            out += inner[1:]
            n = inner[0]
        return out

    def short(self, p):
        try:
            t = node_type(p)
        except ExtractError:
            return "x"
        while isinstance(t, tuple) and t[0] in ("ref", "ptr", "rref", "vec"):
            t = t[1]
        if isinstance(t, tuple):
            t = t[1].split("_")[-1]
        return t

    # ---- how pointer parameters are used
    def param_modes(self, f):
        f.pmodes = []
        for p in f.params:
            d = {"id": p["id"], "name": p.get("name", "_unused"), "mode": None, "acc": "", "node": p}
            f.pmodes.append(d)
            try:
                t = node_type(p)
            except ExtractError:
                d["mode"] = "bad"
                continue
            d["ty"] = t
            if isinstance(t, str) or t[0] in ("vec", "class"):
                d["mode"] = "val"
            elif t[0] == "ref":
                e = t[1]
                if isinstance(e, tuple) and e[0] == "ptr":
                    d["mode"] = "cursorref" if e[1] in INTS else "bad"
                    d["elem"] = e[1]
                elif t[2]:
                    d["mode"] = "val" if (isinstance(e, str) and e != "Str") else "cref"
                else:
                    d["mode"] = "mref"
            elif t[0] == "ptr":
                e = t[1]
                if isinstance(e, tuple) and e[0] == "class":
                    if t[2]:
                        d["mode"] = "cref"
                    elif e[1] in RC_CLASSES:
                        d["mode"] = "rc"
                    else:
                        d["mode"] = "mref"
                elif e == "void" and f.body is not None and self.void_elem(f, p["id"]):
                    d["elem"] = self.void_elem(f, p["id"])
                    d["mode"] = "cursor"
                elif e == "Str":
                    d["mode"] = "cref" if t[2] else "mref"
                elif isinstance(e, str) and e in INTS | {"bool"}:
                    d["elem"] = e
                    d["mode"] = self.ptr_use(f, p["id"]) if f.body is not None else "bad"
                else:
                    d["mode"] = "bad"
            elif t[0] == "rref":
                d["mode"] = "bad"

    def void_elem(self, f, pid):
        """the one element type a void* parameter is cast to"""
        ts = set()

        def walk(n):
            inner = [y for y in n.get("inner", []) if isinstance(y, dict)]
            if n.get("kind") in ("CStyleCastExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr") and inner:
                b = inner[0]
                while b.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
                    b = b["inner"][0]
                if b.get("kind") == "DeclRefExpr" and b["referencedDecl"]["id"] == pid:
                    t = node_type(n)
                    ts.add(t[1] if isinstance(t, tuple) and t[0] == "ptr" and t[1] in INTS else None)
                    return
            if n.get("kind") == "DeclRefExpr" and n["referencedDecl"]["id"] == pid:
                ts.add(None)
            for y in inner:
                walk(y)
        walk(f.body)
        return ts.pop() if len(ts) == 1 else None

    def ptr_use(self, f, pid):
        uses = set()

        def walk(n, ctx):
            k = n.get("kind")
            if is_dropped_call(n):
                return
            if k == "GCCAsmStmt":
                return
            if k == "DeclRefExpr" and n["referencedDecl"]["id"] == pid:
                uses.add(ctx)
                return
            inner = [y for y in n.get("inner", []) if isinstance(y, dict)]
            if k == "UnaryOperator" and n["opcode"] == "*":
                return walk(inner[0], "deref")
            if k == "ArraySubscriptExpr":
                walk(inner[0], "sub")
                return walk(inner[1], "other")
            if k in ("ImplicitCastExpr", "ParenExpr") and ctx in ("deref", "sub", "arg"):
                return walk(inner[0], ctx)
            if k in ("CallExpr", "CXXMemberCallExpr"):
                walk(inner[0], "other")
                callee = self.callee(n)
                for i, a in enumerate(inner[1:]):
                    walk(a, "arg" if callee is not None else "other")
                return
            for y in inner:
                walk(y, "other")
        walk(f.body, "other")
        if uses <= {"sub"} and uses:
            return "vecref"
        if uses <= {"deref", "arg"} and "deref" in uses:
            return "mref"
        if uses == {"arg"}:
            # passed on: same mode as the callee's parameter
            return self.arg_mode(f, pid)
        return "cursor"

    def arg_mode(self, f, pid):
        modes = set()

        def walk(n):
            inner = [y for y in n.get("inner", []) if isinstance(y, dict)]
            if n.get("kind") in ("CallExpr", "CXXMemberCallExpr"):
                c = self.callee(n)
                if c is not None:
                    for i, a in enumerate(inner[1:]):
                        b = a
                        while b.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
                            b = b["inner"][0]
                        if b.get("kind") == "DeclRefExpr" and b["referencedDecl"]["id"] == pid:
                            if not hasattr(c, "pmodes"):
                                self.param_modes(c)
                            modes.add(c.pmodes[i]["mode"] if i < len(c.pmodes) else "bad")
            for y in inner:
                walk(y)
        walk(f.body)
        return modes.pop() if len(modes) == 1 else "cursor"

    def mem_use(self, f, p):
        """'' | 'r' | 'w': does f access the buffer behind cursor parameter p?"""
        acc = p["acc"]
        aliases = {p["id"]}

        def roots(n):
            if n.get("kind") == "DeclRefExpr":
                return {n["referencedDecl"]["id"]}
            if n.get("kind") == "UnaryOperator" and n.get("opcode") == "&":
                return set()   # the address of an object, not the cursor
            if n.get("kind") in ("CXXMemberCallExpr", "CallExpr", "ArraySubscriptExpr", "MemberExpr"):
                return set()
            s = set()
            for y in n.get("inner", []):
                if isinstance(y, dict):
                    s |= roots(y)
            return s

        def walk(n):
            nonlocal acc
            k = n.get("kind")
            inner = [y for y in n.get("inner", []) if isinstance(y, dict)]
            if k == "VarDecl" and inner and node_is_ptr(n) and roots(inner[0]) & aliases:
                aliases.add(n["id"])
            if k == "ArraySubscriptExpr" and roots(inner[0]) & aliases:
                acc = max(acc, "r")
            if k == "UnaryOperator" and n["opcode"] == "*" and roots(inner[0]) & aliases:
                acc = max(acc, "r")
            if (k == "BinaryOperator" and n["opcode"] == "=") or k == "CompoundAssignOperator":
                b = inner[0]
                while b.get("kind") in ("ParenExpr",):
                    b = b["inner"][0]
                if (b.get("kind") == "ArraySubscriptExpr" or (b.get("kind") == "UnaryOperator" and b["opcode"] == "*")) \
                        and roots(b["inner"][0]) & aliases:
                    acc = "w"
            if k == "CallExpr":
                nm = callee_name(n)
                if nm == "memcpy":
                    if roots(inner[1]) & aliases:
                        acc = "w"
                    if roots(inner[2]) & aliases:
                        acc = max(acc, "r")
                elif nm == "memset" and roots(inner[1]) & aliases:
                    acc = "w"
            if k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
                c = self.callee(n)
                args = inner[1:] if k in ("CallExpr", "CXXMemberCallExpr") else inner
                if c is not None:
                    for i, a in enumerate(args):
                        if i < len(c.pmodes) and c.pmodes[i]["mode"] in ("cursor", "cursorref") \
                                and roots(a) & aliases:
                            acc = max(acc, c.pmodes[i]["acc"])
                elif k != "CallExpr" or callee_name(n) not in ("memcpy", "memset", "__builtin_prefetch"):
                    for a in args:
                        if roots(a) & aliases:
                            acc = max(acc, "r")
            for y in inner:
                walk(y)
        walk(f.body)
        return acc

    def callee(self, n):
        """The Func a call node refers to, or None."""
        k = n.get("kind")
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.ctor(n)
        c = n["inner"][0]
        while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            c = c["inner"][0]
        if c.get("kind") == "MemberExpr":
            i = c.get("referencedMemberDecl")
        elif c.get("kind") == "DeclRefExpr":
            i = c["referencedDecl"]["id"]
        else:
            return None
        return self.funcs.get(self.prev.get(i, i))

    def ctor(self, n):
        t = node_type(n)
        if not (isinstance(t, tuple) and t[0] == "class"):
            return None
        q = n.get("ctorType", {}).get("qualType")
        cands = [f for f in self.flist if f.ctor and f.cls == t[1]]
        for f in cands:
            if q is not None and strip_ns(f.node["type"]["qualType"]) == strip_ns(q):
                return f
        nargs = len([y for y in n.get("inner", [])])
        if q is None:
            cands = [f for f in cands if len(f.params) == nargs]
            if len(cands) == 1:
                return cands[0]
        return None


def node_is_ptr(n):
    try:
        t = node_type(n)
    except ExtractError:
        return False
    return isinstance(t, tuple) and t[0] == "ptr"


def callee_name(n):
    c = n["inner"][0]
    while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
        c = c["inner"][0]
    if c.get("kind") == "DeclRefExpr":
        return c["referencedDecl"].get("name")
    if c.get("kind") == "MemberExpr":
        return c.get("name")
    return None


DROPPED = {"__builtin_prefetch", "_mm_prefetch"}


def is_dropped_call(n):
    return n.get("kind") == "CallExpr" and callee_name(n) in DROPPED


def fold(op, a, b, ty):
    try:
        v = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b,
             "|": lambda: a | b, "^": lambda: a ^ b,
             "<<": lambda: a << b if 0 <= b < BITS.get(ty, 64) else None,
             ">>": lambda: a >> b if 0 <= b < BITS.get(ty, 64) else None,
             "/": lambda: (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1) if b else None,
             "%": lambda: a - b * int(a / b) if b and abs(a) < 2**50 else (a % b if b > 0 and a >= 0 else None),
             "==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b),
             ">": lambda: int(a > b), "<=": lambda: int(a <= b), ">=": lambda: int(a >= b),
             }[op]()
    except KeyError:
        return None
    if v is None:
        return None
    if ty == "bool":
        return v
    if ty in ("i16", "i32", "i64") and v != wrap(v, ty):
        return None   # signed overflow: leave it to the verifier
    return wrap(v, ty)


# ====================================================================== emission
class Hooks:
    """Ghost code attached to structural anchors of one function."""

    def __init__(self, contract):
        self.c = contract or {}
        self.count = {}
        self.used = set()

    def get(self, key):
        r = self.c.get(key)
        if r is not None:
            self.used.add(key)
        return r

    def next(self, kind, name=""):
        k = (kind, name)
        self.count[k] = self.count.get(k, 0) + 1
        return self.count[k]


class Emitter:
    def __init__(self, prog, f, contract, rename=None):
        self.p, self.f = prog, f
        self.h = Hooks(contract)
        self.rename = rename or {}
        self.lines = []
        self.ind = 1
        self.vars = {}       # decl id -> Place or Mem or ('bytes', Place)
        self.tmp = 0
        self.calls = set()
        self.loop_inc = []   # stack of (inc emitter) for continue
        self.brk = []
        self.this_stack = []
        self.inl = []        # functions being inlined
        self.inlined = set()
        self.notes = []
        self.assigned = assigned_vars(f.body) if f.body else set()

    # ---- output helpers
    def out(self, s):
        for l in s.split("\n"):
            self.lines.append("    " * self.ind + l)

    def ghost(self, key):
        g = self.h.get(key)
        if g:
            self.out("//@ " + key)
            self.out(g.rstrip("\n"))

    def capture(self, fn):
        saved = self.lines
        self.lines = []
        try:
            r = fn()
            got = self.lines
        finally:
            self.lines = saved
        return r, got

    def fresh(self, code, ty=None):
        self.tmp += 1
        n = "tmp%d" % self.tmp
        self.out("let %s%s = %s;" % (n, ": " + ty if ty else "", code))
        return n

    def hoist(self, code, ty):
        return self.fresh(code, ty) if "(" in code and "." in code else code

    def bad(self, msg, n=None):
        raise Unsupported("%s (line %s)" % (msg, (n or {}).get("_rline", "?")))

    # ---- signature
    def vname(self, d):
        n = d.get("name") or "_unused"
        return rname(self.rename.get(n, n))

    def signature(self):
        f = self.f
        ps = []
        self.shadow = []
        if not f.static and not f.ctor:
            ps.append("&self" if f.const else "&mut self")
        for p in f.pmodes:
            nm = rname(self.rename.get(p["name"], p["name"]))
            if nm == "r":
                nm = "r_"      # r is the result in specifications
            m = p["mode"]
            if m == "bad":
                self.bad("parameter " + p["name"])
            if m == "val":
                t = p["ty"]
                if isinstance(t, tuple) and t[0] == "ref":
                    t = t[1]
                ps.append("%s: %s" % (nm, rty(t)))
                self.vars[p["id"]] = Place(nm, t)
                if p["id"] in self.assigned:
                    self.shadow.append(nm)
            elif m == "cref":
                ps.append("%s: &%s" % (nm, self.refty(p["ty"])))
                self.vars[p["id"]] = Place(nm, p["ty"][1], "&")
            elif m == "mref":
                t = p["ty"][1]
                ps.append("%s: &mut %s" % (nm, rty(t)))
                self.vars[p["id"]] = Place(nm, t, "&mut")
            elif m == "rc":
                ps.append("%s: Arc<%s>" % (nm, p["ty"][1][1]))
                self.vars[p["id"]] = Place(nm, p["ty"][1], "Rc")
            elif m == "vecref":
                ps.append("%s: &Vec<%s>" % (nm, rty(p["elem"])))
                self.vars[p["id"]] = Mem(Place(nm, ("vec", p["elem"]), "&"), "0u64", p["elem"], True)
            elif m in ("cursor", "cursorref"):
                if p["acc"]:
                    ps.append("%s_mem: &%sVec<%s>" % (nm, "mut " if p["acc"] == "w" else "", rty(p["elem"])))
                if m == "cursorref":
                    ps.append("%s: &mut u64" % nm)
                    off = Place(nm, "u64", "&mut")
                else:
                    ps.append("%s: u64" % nm)
                    off = Place(nm, "u64")
                    if p["id"] in self.assigned:
                        self.shadow.append(nm)
                reg = Place(nm + "_mem", ("vec", p["elem"]), "&mut" if p["acc"] == "w" else "&") \
                    if p["acc"] else None
                self.vars[p["id"]] = Mem(reg, off, p["elem"])
        r = ""
        if f.ctor:
            r = " -> (r: %s)" % f.cls
        elif f.ret_t is None:
            self.bad("return type " + f.rets)
        elif f.ret_t != "void":
            r = " -> (r: %s)" % self.retty(f.ret_t)
        ps += ["Ghost(%s): Ghost<%s>" % g for g in self.p.ghosts.get(f.key, [])]
        return "pub fn %s(%s)%s" % (f.rname, ", ".join(ps), r)

    def refty(self, t):
        return rty(t[1])

    def retty(self, t):
        if isinstance(t, tuple) and t[0] == "ref":
            return "&" + rty(t[1]) if t[2] else self.bad("returned reference")
        if isinstance(t, tuple) and t[0] == "ptr":
            e = t[1]
            if isinstance(e, tuple) and e[0] == "class":
                return e[1]
            if e == "char":
                return "Vec<u8>"
            self.bad("returned pointer")
        return rty(t)

    # ---- whole function
    def emit(self):
        f = self.f
        sig = self.signature()
        if f.body is None:
            self.bad("no body")
        for s in self.shadow:
            self.out("let mut %s = %s;" % (s, s))
        if f.ctor:
            self.ctor_init()
        self.ghost("body-start")
        self.block(f.body)
        if f.ctor:
            self.ghost("body-end")
            self.out("this")
        elif f.ret_t == "void":
            self.ghost("body-end")
        return sig, self.lines

    def ctor_init(self):
        f = self.f
        c = self.p.classes[f.cls]
        init, base_init = {}, None
        for i in f.inits:
            e = [y for y in i.get("inner", []) if isinstance(y, dict)]
            if "baseInit" in i:
                base_init = e[0]
            elif "anyInit" in i:
                init[i["anyInit"]["name"]] = e[0]
            else:
                self.bad("constructor initializer")
        parts = []
        if c["base"]:
            if base_init is None:
                self.bad("no base initializer")
            parts.append("base: " + self.rvalue(base_init).code)
        for (name, ty, _id, nd) in c["fields"]:
            fn = self.field(f.cls, name)
            if name in init:
                v = self.rvalue(init[name])
                parts.append("%s: %s" % (fn, self.to_field(v, ty)))
            else:
                parts.append("%s: %s" % (fn, self.default(ty)))
        self.out("let mut this = %s { %s };" % (f.cls, ", ".join(parts)))

    def default(self, ty):
        """value of a declared but uninitialized object of type ty"""
        if isinstance(ty, str):
            if ty == "Str":
                return "Str::empty()"
            return "uninit::<%s>()" % rty(ty)
        if ty[0] == "vec":
            return "Vec::new()"
        if ty[0] == "class":
            for g in self.p.flist:
                if g.ctor and g.cls == ty[1] and not g.params:
                    self.calls.add(g.key)
                    return "%s::%s()" % (ty[1], g.rname)
            self.bad("no default constructor " + ty[1])
        if ty[0] in ("ptr", "opaque"):
            return "uninit::<%s>()" % rty(ty)
        self.bad("default of %r" % (ty,))

    def field(self, cls, name):
        return rname(self.p.fieldname.get((cls, name), name))

    # ---- statements
    def block(self, n):
        for s in n.get("inner", []):
            self.stmt(s)

    def braces(self, n, pre=None, post=None):
        self.ind += 1
        if pre:
            self.ghost(pre)
        if n is not None:
            if n["kind"] == "CompoundStmt":
                self.block(n)
            else:
                self.stmt(n)
        if post:
            self.ghost(post)
        self.ind -= 1

    def stmt(self, n):
        k = n["kind"]
        if k == "NullStmt":
            return
        if k == "CompoundStmt":
            self.out("{")
            self.braces(n)
            self.out("}")
            return
        if k == "DeclStmt":
            for d in n["inner"]:
                if d["kind"] == "VarDecl":
                    self.vardecl(d)
                elif d["kind"] in ("TypeAliasDecl", "TypedefDecl", "StaticAssertDecl", "EmptyDecl"):
                    pass
                else:
                    self.bad("declaration " + d["kind"], n)
            return
        if k == "IfStmt":
            return self.ifstmt(n)
        if k == "WhileStmt":
            return self.whilestmt(n)
        if k == "ForStmt":
            return self.forstmt(n)
        if k == "DoStmt":
            return self.dostmt(n)
        if k == "ReturnStmt":
            return self.ret(n)
        if k == "BreakStmt":
            if not self.brk or self.brk[-1] != "loop":
                self.bad("break", n)
            self.out("break;")
            return
        if k == "ContinueStmt":
            i = len(self.brk) - 1
            if not self.loop_inc:
                self.bad("continue", n)
            inc = self.loop_inc[-1]
            kk = self.h.next("continue")
            self.ghost("before continue %d" % kk)
            if inc is not None:
                inc()
            self.out("continue;")
            return
        if k == "SwitchStmt":
            return self.switch(n)
        if k == "GCCAsmStmt":
            self.asm(n)
            return
        if k in ("LabelStmt", "GotoStmt", "CXXTryStmt", "CXXForRangeStmt", "CaseStmt", "DefaultStmt"):
            self.bad(k, n)
        # expression statement
        self.exprstmt(n)

    def asm(self, n):
        # an assembly statement without outputs is dropped (prefetch hints)
        for y in n.get("inner", []):
            pass
        self.notes.append("asm statement dropped at line %s" % n.get("_rline"))

    def anchors(self, n):
        """calls and assigned variables of a simple statement, in source order"""
        calls, assigns = [], []

        def walk(x):
            k = x.get("kind")
            for y in x.get("inner", []):
                if isinstance(y, dict):
                    walk(y)
            if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr",
                     "CXXTemporaryObjectExpr"):
                g = self.p.callee(x)
                if g is not None:
                    calls.append(g.rname)
                else:
                    nm = None
                    try:
                        nm = callee_name(x) if k in ("CallExpr", "CXXMemberCallExpr") else None
                    except (KeyError, IndexError):
                        pass
                    if nm in ("push_back", "memcpy", "memset", "append"):
                        calls.append(nm)
            if (k == "BinaryOperator" and x["opcode"] == "=") or k == "CompoundAssignOperator" or \
                    (k == "UnaryOperator" and x["opcode"] in ("++", "--")):
                v = self.base_name(x["inner"][0])
                if v:
                    assigns.append(v)
            if k == "CXXOperatorCallExpr":
                o = opname(x)
                if o == "operator=":
                    v = self.base_name(x["inner"][1])
                    if v:
                        assigns.append(v)
            if k == "VarDecl" and any(isinstance(y, dict) for y in x.get("inner", [])):
                assigns.append(self.vname(x))
        walk(n)
        res = []
        for c in calls:
            res.append(("call", c, self.h.next("call", c)))
        for a in assigns:
            res.append(("assign", a, self.h.next("assign", a)))
        return res

    def base_name(self, n):
        """variable or field name assigned to"""
        while True:
            k = n.get("kind")
            if k == "DeclRefExpr":
                nm = n["referencedDecl"].get("name")
                return rname(self.rename.get(nm, nm))
            if k == "MemberExpr":
                return self.field_of(n)
            if k in ("ImplicitCastExpr", "ParenExpr", "UnaryOperator", "ArraySubscriptExpr", "CStyleCastExpr"):
                n = n["inner"][0]
            elif k == "CXXOperatorCallExpr":
                n = n["inner"][1]
            else:
                return None

    def field_of(self, n):
        i = n.get("referencedMemberDecl")
        for c in self.p.classes.values():
            for (name, ty, fid, nd) in c["fields"]:
                if fid == i:
                    return self.field(c["name"], name)
        return n.get("name")

    def before(self, an):
        for kind, nm, k in an:
            self.ghost("before %s %s %d" % (kind, nm, k))

    def after(self, an):
        for kind, nm, k in reversed(an):
            self.ghost("after %s %s %d" % (kind, nm, k))

    def exprstmt(self, n):
        e = strip_value(n)
        if e.get("kind") == "CallExpr" and callee_name(e) in DROPPED:
            return
        if e.get("kind") == "CXXDeleteExpr":
            return
        if e.get("kind") in ("CStyleCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr") \
                and e.get("castKind") == "ToVoid":
            if no_effect(e["inner"][0]):
                return
            return self.exprstmt(e["inner"][0])
        an = self.anchors(n)
        self.before(an)
        self.effect(e)
        self.after(an)

    def effect(self, e):
        k = e["kind"]
        e = strip_value(e)
        k = e["kind"]
        if k == "BinaryOperator" and e["opcode"] == "=":
            self.assign(e["inner"][0], e["inner"][1])
            return
        if k == "BinaryOperator" and e["opcode"] == ",":
            self.effect(e["inner"][0])
            self.effect(e["inner"][1])
            return
        if k == "CompoundAssignOperator":
            self.compound(e)
            return
        if k == "UnaryOperator" and e["opcode"] in ("++", "--"):
            self.incdec(e)
            return
        if k == "ConditionalOperator":
            c = self.cond(e["inner"][0])
            self.out("if %s {" % c)
            self.ind += 1
            self.effect(e["inner"][1])
            self.ind -= 1
            self.out("} else {")
            self.ind += 1
            self.effect(e["inner"][2])
            self.ind -= 1
            self.out("}")
            return
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            v = self.call(e, stmt=True)
            if v is not None and v.code:
                if v.ty == "void":
                    self.out(v.code + ";")
                else:
                    self.out("let _ = " + v.code + ";")
            return
        if no_effect(e):
            return
        v = self.rvalue(e)
        if v.code:
            self.out("let _ = %s;" % v.code)

    def vardecl(self, d):
        ty = node_type(d)
        nm = self.vname(d)
        inner = [y for y in d.get("inner", []) if isinstance(y, dict) and y["kind"] not in ("FullComment",)]
        if d.get("storageClass") == "static" and d["id"] not in self.p.consts:
            v = self.p.const_of(inner[0]) if inner and is_const(d["type"]["qualType"]) else None
            if v is None:
                self.bad("static local " + nm, d)
            self.p.consts[d["id"]] = (wrap(v, ty), ty)
            return
        an = self.anchors(d)
        self.before(an)
        if isinstance(ty, tuple) and ty[0] == "ptr":
            self.ptrdecl(d, ty, nm, inner)
            self.after(an)
            return
        if isinstance(ty, tuple) and ty[0] == "arr":
            if inner or ty[1] not in ("u8", "char", "u32", "u64"):
                self.bad("array " + nm, d)
            self.out("let mut %s_mem: Vec<%s> = new_array_%s(%du64);" % (nm, rty(ty[1]), rty(ty[1]), ty[2]))
            self.vars[d["id"]] = Mem(Place(nm + "_mem", ("vec", ty[1])), "0u64", ty[1], True)
            self.after(an)
            return
        if isinstance(ty, tuple) and ty[0] in ("ref", "rref"):
            e = ty[1]
            pl = self.lvalue(inner[0]) if not is_temp(inner[0]) else None
            if pl is not None:
                if ty[0] == "ref" and (ty[2] or d["id"] not in self.assigned_places()):
                    if isinstance(e, str) and e != "Str":
                        # a const reference to a scalar: an alias of the place
                        self.vars[d["id"]] = pl
                    else:
                        self.out("let %s: &%s = %s;" % (nm, rty(e), pl.borrow()))
                        self.vars[d["id"]] = Place(nm, e, "&")
                else:
                    self.out("let %s: &mut %s = %s;" % (nm, rty(e), pl.borrow_mut()))
                    self.vars[d["id"]] = Place(nm, e, "&mut")
            else:
                v = self.rvalue(inner[0])
                self.out("let %s: %s = %s;" % (nm, rty(e), v.code))
                self.vars[d["id"]] = Place(nm, e)
            self.after(an)
            return
        pl = Place(nm, ty)
        if not inner:
            self.out("let mut %s: %s = %s;" % (nm, rty(ty), self.default(ty)))
        else:
            v = self.rvalue(inner[0])
            self.out("let mut %s: %s = %s;" % (nm, rty(ty), self.conv(v, ty).code))
        self.vars[d["id"]] = pl
        self.after(an)

    def assigned_places(self):
        return self.assigned

    def ptrdecl(self, d, ty, nm, inner):
        if not inner:
            self.bad("uninitialized pointer " + nm, d)
        e = ty[1]
        if isinstance(e, tuple) and e[0] == "class":
            v = self.rvalue(inner[0])
            if v.place is not None:
                self.vars[d["id"]] = Place(v.place.code, e, v.place.ref)   # another name for it
                self.notes.append("pointer %s is another name for %s" % (nm, v.place.code))
                if d["id"] in self.assigned:
                    self.bad("reassigned object pointer " + nm, d)
                return
            self.out("let mut %s: %s = %s;" % (nm, e[1], v.code))
            self.vars[d["id"]] = Place(nm, e)
            return
        v = self.rvalue(inner[0])
        if v.mem is not None:
            self.out("let mut %s: u64 = %s;" % (nm, v.mem.off))
            self.vars[d["id"]] = Mem(v.mem.region, Place(nm, "u64"), v.mem.elem, view=v.mem.view)
            return
        if isinstance(v.ty, tuple) and v.ty[0] == "newarr":
            self.out("let mut %s_mem: Vec<%s> = %s;" % (nm, rty(v.ty[1]), v.code))
            self.out("let mut %s: u64 = 0u64;" % nm)
            self.vars[d["id"]] = Mem(Place(nm + "_mem", ("vec", v.ty[1])), Place(nm, "u64"), v.ty[1])
            return
        if isinstance(v.ty, tuple) and v.ty[0] == "bytesof":
            # a byte view of a scalar that is not modified while the view lives
            src = v.place
            self.check_frozen(src, d)
            self.out("let %s_mem: Vec<u8> = u64_le_bytes(%s);" % (nm, src.read()))
            self.out("let mut %s: u64 = 0u64;" % nm)
            self.vars[d["id"]] = Mem(Place(nm + "_mem", ("vec", "u8")), Place(nm, "u64"), "char")
            return
        self.bad("pointer initializer " + nm, d)

    def check_frozen(self, place, d):
        after = [False]
        hit = [False]
        name = place.code

        def walk(n):
            if n.get("id") == d["id"]:
                after[0] = True
                return
            if after[0]:
                if n.get("kind") in ("CompoundAssignOperator", "UnaryOperator", "BinaryOperator") and \
                        (n.get("opcode") in ("=", "++", "--") or n["kind"] == "CompoundAssignOperator"):
                    if self.base_name(n["inner"][0]) == name and n.get("opcode") != "&":
                        hit[0] = True
            for y in n.get("inner", []):
                if isinstance(y, dict):
                    walk(y)
        walk(self.f.body)
        if hit[0]:
            self.bad("byte view of a variable that changes", d)

    def cond(self, n):
        v = self.rvalue(n)
        v = self.conv(v, "bool")
        return v.code

    def ifstmt(self, n):
        inner = [y for y in n["inner"] if isinstance(y, dict)]
        if n.get("hasVar") or n.get("hasInit"):
            self.bad("if with declaration", n)
        cond, then = inner[0], inner[1]
        els = inner[2] if n.get("hasElse") else None
        k = self.h.next("if")
        an = self.anchors(cond)
        self.before(an)
        self.ghost("before if %d" % k)
        c = self.cond(cond)
        self.out("if %s {" % c)
        self.braces(then, "if %d then" % k, "if %d then end" % k)
        if els is not None or self.h.c.get("if %d else" % k):
            self.out("} else {")
            self.braces(els, "if %d else" % k)
        self.out("}")
        self.ghost("after if %d" % k)

    def loop(self, n, cond, body, inc):
        k = self.h.next("loop")
        self.ghost("before loop %d" % k)
        spec = self.h.get("loop %d" % k) or ""
        spec = "\n".join("    " + l for l in spec.rstrip().split("\n")) if spec else ""
        attr = self.h.get("loop %d attr" % k)
        if cond is not None:
            an = self.anchors(cond)
            c, pre = self.capture(lambda: self.cond(cond))
            hk = any(self.h.c.get("before %s %s %d" % a) for a in an)
        else:
            c, pre, an, hk = "true", [], [], False
        if attr:
            self.out(attr)
        if (not pre) and not hk:
            self.out("while %s" % c)
            if spec:
                self.out(spec)
            self.out("{")
            self.ind += 1
        else:
            self.out("loop")
            if spec:
                self.out(spec)
            self.out("{")
            self.ind += 1
            self.before(an)
            for l in pre:
                self.lines.append(l)
            self.ghost("loop %d cond" % k)
            self.out("if !(%s) {" % c)
            self.ind += 1
            self.ghost("loop %d exit" % k)
            self.out("break;")
            self.ind -= 1
            self.out("}")

        def do_inc():
            if inc is not None:
                self.effect(inc)
        self.ghost("loop %d start" % k)
        self.brk.append("loop")
        self.loop_inc.append(do_inc)
        if body["kind"] == "CompoundStmt":
            self.block(body)
        else:
            self.stmt(body)
        self.loop_inc.pop()
        self.brk.pop()
        self.ghost("loop %d end" % k)
        do_inc()
        self.ghost("loop %d inc" % k)
        self.ind -= 1
        self.out("}")
        self.ghost("after loop %d" % k)

    def whilestmt(self, n):
        inner = [y for y in n["inner"] if isinstance(y, dict)]
        if n.get("hasVar"):
            self.bad("while with declaration", n)
        if self.p.const_of(inner[0]) == 0:
            return
        self.loop(n, inner[0], inner[1], None)

    def forstmt(self, n):
        init, _cv, cond, inc, body = n["inner"]
        has = lambda x: isinstance(x, dict) and x.get("kind")
        self.out("{")
        self.ind += 1
        if has(init):
            self.stmt(init)
        self.loop(n, cond if has(cond) else None, body, inc if has(inc) else None)
        self.ind -= 1
        self.out("}")

    def dostmt(self, n):
        body, cond = n["inner"]
        if self.p.const_of(cond) == 0 and not contains_kind(body, ("BreakStmt", "ContinueStmt")):
            self.out("{")
            self.braces(body)
            self.out("}")
            return
        if contains_kind(body, ("ContinueStmt",)):
            self.bad("continue in do", n)
        k = self.h.next("loop")
        self.ghost("before loop %d" % k)
        spec = self.h.get("loop %d" % k)
        self.out("loop")
        if spec:
            self.out(spec)
        self.out("{")
        self.ind += 1
        self.ghost("loop %d start" % k)
        self.brk.append("loop")
        self.loop_inc.append(None)
        if body["kind"] == "CompoundStmt":
            self.block(body)
        else:
            self.stmt(body)
        self.loop_inc.pop()
        self.brk.pop()
        self.ghost("loop %d end" % k)
        c = self.cond(cond)
        self.out("if !(%s) { break; }" % c)
        self.ind -= 1
        self.out("}")
        self.ghost("after loop %d" % k)

    def ret(self, n):
        inner = [y for y in n.get("inner", []) if isinstance(y, dict)]
        k = self.h.next("return")
        f = self.f
        if not inner:
            self.ghost("before return %d" % k)
            self.ghost("before return *")
            self.out("return this;" if f.ctor else "return;")
            return
        e = inner[0]
        an = self.anchors(e)
        self.before(an)
        t = f.ret_t
        if t == "void":
            self.effect(strip_value(e))
            self.after(an)
            self.ghost("before return %d" % k)
            self.ghost("before return *")
            self.out("return;")
            return
        if isinstance(t, tuple) and t[0] == "ref":
            pl = self.lvalue(e)
            self.ghost("before return %d" % k)
            self.ghost("before return *")
            self.out("return %s;" % pl.borrow())
            return
        v = self.rvalue(e)
        if isinstance(t, tuple) and t[0] == "ptr":
            if v.mem is not None:
                # the buffer itself is handed over: the pointer must be at its start
                self.out("vp_assert(%s == 0u64);" % v.mem.off)
                code = v.mem.region.code
            elif v.place is not None and v.place.ref is None:
                code = v.place.code
            else:
                code = v.code
        else:
            v = self.conv(v, t)
            code = v.code
        hooks = ["before return %d" % k, "before return *"]
        if any(self.h.c.get(x) for x in hooks) or any(self.h.c.get("after %s %s %d" % a) for a in an):
            self.out("let ret = %s;" % code)
            self.after(an)
            for x in hooks:
                self.ghost(x)
            self.out("return ret;")
        else:
            self.out("return %s;" % code)

    def switch(self, n):
        inner = [y for y in n["inner"] if isinstance(y, dict)]
        v = self.rvalue(inner[0])
        body = inner[1]
        sw = self.fresh(v.code)
        flat = []     # (labels|None, stmt)

        def add(s, labels):
            if s["kind"] == "CaseStmt":
                ii = [y for y in s["inner"] if isinstance(y, dict)]
                c = self.p.const_of(ii[0])
                if c is None or len(ii) > 2:
                    self.bad("case label", s)
                return add(ii[-1], labels + [c])
            if s["kind"] == "DefaultStmt":
                return add(s["inner"][0], labels + ["default"])
            flat.append((labels, s))
        for s in body.get("inner", []):
            add(s, [])
        starts = [i for i, (l, _) in enumerate(flat) if l]
        default = None
        first = True
        alts = []
        for i in starts:
            labels = flat[i][0]
            stmts = []
            for (_l, s) in flat[i:]:
                if s["kind"] == "BreakStmt":
                    break
                stmts.append(s)
                if s["kind"] == "ReturnStmt":
                    break
            for s in stmts:
                if contains_break(s):
                    self.bad("nested break in switch", n)
            if "default" in labels:
                default = stmts
                labels = [l for l in labels if l != "default"]
            if labels:
                alts.append((labels, stmts))
        saved = dict(self.h.count)
        self.brk.append("switch")
        for labels, stmts in alts:
            c = " || ".join("%s == %s" % (sw, lit(l, v.ty)) for l in labels)
            self.out("%sif %s {" % ("" if first else "} else ", c))
            first = False
            self.ind += 1
            for s in stmts:
                self.stmt(s)
            self.ind -= 1
        if default is not None:
            self.out("} else {" if not first else "{")
            self.ind += 1
            for s in default:
                self.stmt(s)
            self.ind -= 1
            self.out("}")
        elif not first:
            self.out("}")
        self.brk.pop()

    # ---- assignments
    def assign(self, l, r):
        lt = node_type(strip_lv(l))
        if isinstance(lt, tuple) and lt[0] == "ptr":
            return self.ptr_assign(l, r, lt)
        v = self.rvalue(r)
        pl = self.lvalue(l)
        if isinstance(pl, Mem):
            self.bad("assignment through pointer", l)
        v = self.conv(v, pl.ty)
        self.store(pl, v.code)

    def store(self, pl, code):
        tgt = pl.read()
        if pl.ref in ("&mut",):
            tgt = "*%s" % pl.code
        if pl.ref in ("&", "Rc"):
            self.bad("store through shared reference " + pl.code)
        self.out("%s = %s;" % (tgt, code))

    def ptr_assign(self, l, r, lt):
        e = lt[1]
        tgt = strip_lv(l)
        if tgt["kind"] == "DeclRefExpr" and isinstance(self.vars.get(tgt["referencedDecl"]["id"]), Mem):
            m = self.vars[tgt["referencedDecl"]["id"]]
            v = self.rvalue(r)
            if v.mem is None or v.mem.view != m.view or (v.mem.region is not None and m.region is not None and
                                 v.mem.region.code != m.region.code):
                self.bad("pointer assignment", l)
            self.store(m.off, v.mem.off)
            return
        pl = self.lvalue(l)
        v = self.rvalue(r)
        if v.ty == "null":
            if isinstance(e, str):
                self.store(pl, "Vec::new()")
                return
            self.bad("null object pointer", l)
        if isinstance(v.ty, tuple) and v.ty[0] == "newarr":
            self.store(pl, v.code)
            return
        if isinstance(e, tuple) and e[0] == "class":
            code = v.code
            if v.place is not None:
                if v.place.ref == "Rc":
                    code = v.place.code + ".clone()"
                elif v.place.ref is None:
                    code = v.place.code      # moved: the pointer has one owner
                else:
                    self.bad("copied object pointer", l)
            elif e[1] in RC_CLASSES and pl.ref == "Rc" or (e[1] in RC_CLASSES and self.is_field(tgt)):
                code = "Arc::new(%s)" % v.code
            self.out("%s = %s;" % (pl.code, code))
            return
        self.bad("pointer assignment", l)

    def is_field(self, n):
        return n.get("kind") == "MemberExpr"

    def compound(self, e):
        op = e["opcode"][:-1]
        l, r = e["inner"]
        lt = node_type(l)
        if isinstance(lt, tuple) and lt[0] == "ptr":
            m = self.lvalue(l)
            if not isinstance(m, Mem) or m.view:
                self.bad("pointer arithmetic", e)
            rv = self.conv(self.rvalue(r), "u64")
            self.store(m.off, "%s_u64(%s, %s)" % ({"+": "add", "-": "sub"}[op], m.off.read(), rv.code))
            return V("", "void")
        rv = self.rvalue(r)
        ct = parse_type(e["computeLHSType"].get("desugaredQualType", e["computeLHSType"]["qualType"]))
        rt = parse_type(e["computeResultType"].get("desugaredQualType", e["computeResultType"]["qualType"]))
        # the operand must be evaluated before the place is borrowed
        pl = self.lvalue(l)
        cur = self.conv(V(pl.read(), pl.ty), ct)
        res = self.binop(op, cur, rv, rt)
        self.store(pl, self.conv(res, pl.ty).code)
        return V(pl.read(), pl.ty)

    def incdec(self, e, value=False):
        l = e["inner"][0]
        pl = self.lvalue(l)
        op = "+" if e["opcode"] == "++" else "-"
        if isinstance(pl, Mem):
            if pl.view:
                self.bad("pointer arithmetic on a byte view", e)
            cur = pl.off
            t = None
            if value and e.get("isPostfix"):
                t = self.fresh(cur.read(), "u64")
            self.store(cur, "%s_u64(%s, 1u64)" % ("add" if op == "+" else "sub", cur.read()))
            return V("", "ptr", mem=Mem(pl.region, t or cur.read(), pl.elem))
        t = None
        if value and e.get("isPostfix"):
            t = self.fresh(pl.read(), rty(pl.ty))
        if pl.ty in ("u8", "char", "u16", "i16"):
            a = self.conv(V(pl.read(), pl.ty), "i32")
            res = self.conv(self.binop(op, a, V("1i32", "i32", 1), "i32"), pl.ty)
        else:
            res = self.binop(op, V(pl.read(), pl.ty), V(lit(1, pl.ty), pl.ty, 1), pl.ty)
        self.store(pl, res.code)
        return V(t or pl.read(), pl.ty)

    # ---- conversions and arithmetic
    def conv(self, v, ty):
        if isinstance(ty, tuple) and ty[0] in ("ref", "rref"):
            ty = ty[1]
        if v.ty == ty or not isinstance(ty, str) or not isinstance(v.ty, str):
            return v
        if v.const is not None and (ty in BITS or ty == "bool"):
            c = wrap(v.const, ty)
            return V(lit(c, ty), ty, c)
        if ty == "bool":
            if v.ty in INTS:
                return V("(%s != %s)" % (v.code, lit(0, v.ty)), "bool")
            self.bad("conversion %s to bool" % (v.ty,))
        if v.ty == "bool":
            if ty in INTS:
                return V("(if %s { %s } else { %s })" % (v.code, lit(1, ty), lit(0, ty)), ty)
        if ty not in INTS or v.ty not in INTS:
            if ty == v.ty:
                return v
            self.bad("conversion %s to %s" % (v.ty, ty))
        a, b = v.ty, ty
        if {a, b} == {"u8", "char"}:
            return V(v.code, ty)
        if a == "char":
            return self.conv(V("char_to_i32(%s)" % v.code, "i32"), ty)
        sb = b
        if b == "char":
            b = "u8"
        if a[0] == "u" and b[0] == "u":
            if BITS[a] < BITS[b]:
                return V("(%s as %s)" % (v.code, b), sb)
            return V("%s_to_%s(%s)" % (a, b, v.code), sb)
        if b[0] == "i" and BITS[a] < BITS[b]:
            return V("(%s as %s)" % (v.code, b), sb)
        return V("%s_to_%s(%s)" % (a, b, v.code), sb)

    def binop(self, op, a, b, ty):
        """a, b already of the operand types of the C++ operator"""
        if a.const is not None and b.const is not None:
            c = fold(op, a.const, b.const, ty)
            if c is not None:
                return V(lit(c, ty), ty, c)
        if op in ("&&", "||"):
            return V("(%s %s %s)" % (a.code, op, b.code), "bool")
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return V("(%s %s %s)" % (a.code, op, b.code), "bool")
        if op in ("<<", ">>"):
            t = ty
            if t in ("i32", "i64"):
                bb = self.conv(b, "i32") if b.ty not in ("i32", "u32") else b
                if b.const is not None:
                    bb = V(lit(b.const, "u32"), "u32", b.const)
                elif bb.ty == "i32":
                    bb = V("shift_amount_i32(%s)" % bb.code, "u32")
                return V("%s_%s(%s, %s)" % ("shl" if op == "<<" else "shr", t, a.code, bb.code), t)
            if b.const is not None and b.const >= 0:
                bc = lit(b.const, t)
            elif b.ty == t:
                bc = b.code
            elif b.ty in ("i32", "i64"):
                bc = "(shift_amount_%s(%s) as %s)" % (b.ty, b.code, t) if t != "u32" else \
                    "shift_amount_%s(%s)" % (b.ty, b.code)
            elif BITS[b.ty] < BITS[t]:
                bc = "(%s as %s)" % (b.code, t)
            else:
                bc = "shift_amount_u64(%s)" % b.code
            return V("(%s %s %s)" % (a.code, op, bc), t)
        if op in ("&", "|", "^"):
            return V("(%s %s %s)" % (a.code, op, b.code), ty)
        if op in ("/", "%"):
            if ty in ("i32", "i64"):
                return V("%s_%s(%s, %s)" % ("div" if op == "/" else "rem", ty, a.code, b.code), ty)
            return V("(%s %s %s)" % (a.code, op, b.code), ty)
        if op in ("+", "-", "*"):
            if ty in ("i32", "i64"):
                return V("(%s %s %s)" % (a.code, op, b.code), ty)
            nm = {"+": "add", "-": "sub", "*": "mul"}[op]
            return V("%s_%s(%s, %s)" % (nm, ty, a.code, b.code), ty)
        self.bad("operator " + op)

    # ---- lvalues
    def lvalue(self, n):
        k = n["kind"]
        inner = [y for y in n.get("inner", []) if isinstance(y, dict)]
        if k in ("ParenExpr", "ExprWithCleanups", "ConstantExpr"):
            return self.lvalue(inner[0])
        if k == "ImplicitCastExpr":
            ck = n["castKind"]
            if ck == "NoOp":
                return self.lvalue(inner[0])
            if ck in ("UncheckedDerivedToBase", "DerivedToBase"):
                b = self.lvalue(inner[0])
                return self.to_base(b, n)
            self.bad("lvalue cast " + ck, n)
        if k in ("CXXStaticCastExpr", "CStyleCastExpr", "CXXConstCastExpr") and n.get("castKind") == "NoOp":
            return self.lvalue(inner[0])
        if k == "DeclRefExpr":
            i = n["referencedDecl"]["id"]
            if i in self.vars:
                return self.vars[i]
            self.bad("variable " + n["referencedDecl"].get("name", "?"), n)
        if k == "MemberExpr":
            base = inner[0]
            if n.get("isArrow"):
                b = self.deref_place(base)
            else:
                b = self.place_of(base)
            f = self.field_of(n)
            i = n.get("referencedMemberDecl")
            for c in self.p.classes.values():
                for (name, ty, fid, nd) in c["fields"]:
                    if fid == i:
                        return self.field_place(b, f, ty)
            self.bad("member " + str(n.get("name")), n)
        if k == "ArraySubscriptExpr":
            b = self.rvalue(inner[0])
            i = self.rvalue(inner[1])
            if b.mem is None:
                self.bad("subscript", n)
            if b.mem.view:
                w = BITS[b.mem.view] // 8
                return Place("mem_get_%s(%s, ptr_at(%s, %s, %di64))" % (
                    rty(b.mem.view), b.mem.region.borrow(), b.mem.off, self.conv(i, "i64").code, w), b.mem.view, "value")
            iv = self.conv(i, "u64") if i.ty != "i32" or i.const is not None else \
                V("i32_to_u64(%s)" % i.code, "u64")
            if b.mem.const0:
                off = iv.code
            else:
                off = "add_u64(%s, %s)" % (b.mem.off, iv.code)
            return Place("%s[%s as usize]" % (b.mem.region.code, off), node_type(n))
        if k == "CXXOperatorCallExpr" and opname(n) == "operator[]":
            # std::vector or std::string element
            base, idx = inner[1], inner[2]
            bp = self.place_of(base)
            iv = self.conv(self.rvalue(idx), "u64")
            bt = bp.ty
            if bt == "Str":
                return Place("str_at(%s, %s)" % (bp.borrow(), iv.code), "char", "value")
            if isinstance(bt, tuple) and bt[0] == "class":
                self.bad("operator[] of " + bt[1], n)
            code = bp.code
            c = "%s[%s as usize]" % (code, self.simple_index(iv.code, n))
            return Place(c, bt[1])
        if k == "UnaryOperator" and n["opcode"] == "*":
            return self.deref_place(inner[0])
        if k == "CXXMemberCallExpr" and callee_name(n) == "back":
            m = strip_value(inner[0])
            bp = self.place_of(m["inner"][0]) if not m.get("isArrow") else self.deref_place(m["inner"][0])
            return Place("%s[vec_back_index(%s)]" % (bp.code, bp.borrow()), bp.ty[1])
        if k in ("CallExpr", "CXXMemberCallExpr"):
            f = self.p.callee(n)
            if f is not None and isinstance(f.ret_t, tuple) and f.ret_t[0] == "ref":
                v = self.call(n)
                return Place(v.code, f.ret_t[1], "&" if f.ret_t[2] else "&mut")
        if k in ("MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
            v = self.rvalue(inner[0])
            t = self.fresh(v.code, rty(v.ty))
            return Place(t, v.ty)
        self.bad("lvalue " + k, n)

    def simple_index(self, code, n):
        return code

    def field_place(self, b, f, ty):
        code = "%s.%s" % (b.code, f)
        if isinstance(ty, tuple) and ty[0] == "ptr":
            e = ty[1]
            if isinstance(e, str):
                return Place(code, ty)
            if e[1] in RC_CLASSES:
                return Place(code, ty, "Rc")
            return Place(code, ty)
        if isinstance(ty, tuple) and ty[0] == "ref":
            self.bad("reference field")
        return Place(code, ty)

    def to_base(self, b, n):
        for _ in n.get("path", [{"name": None}]):
            b = Place(b.code + ".base", ("class", _["name"]))
        return b

    def place_of(self, n):
        """place of a class/vector/string glvalue (or a temporary)"""
        m = n
        while m["kind"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups") and \
                m.get("castKind", "NoOp") in ("NoOp",):
            m = m["inner"][0]
        if m.get("valueCategory") == "prvalue" and m["kind"] not in ("CXXThisExpr",):
            v = self.rvalue(m)
            if v.place is not None:
                return v.place
            return Place("(%s)" % v.code if not v.code.isidentifier() else v.code, v.ty)
        p = self.lvalue(m)
        if isinstance(p, Mem):
            self.bad("place", n)
        return p

    def deref_place(self, n):
        """place an object/scalar pointer points to"""
        v = self.rvalue(n)
        if v.place is not None:
            return v.place
        if v.mem is not None:
            if v.mem.view:
                self.bad("dereference of a byte view", n)
            return Place("%s[%s as usize]" % (v.mem.region.code, v.mem.off), v.mem.elem)
        self.bad("dereference", n)

    # ---- rvalues
    def rvalue(self, n):
        k = n["kind"]
        inner = [y for y in n.get("inner", []) if isinstance(y, dict)]
        c = None
        if k in ("IntegerLiteral", "CharacterLiteral", "CXXBoolLiteralExpr", "DeclRefExpr", "BinaryOperator",
                 "UnaryOperator", "ImplicitCastExpr", "ParenExpr", "ConstantExpr", "CStyleCastExpr",
                 "CXXStaticCastExpr", "CXXFunctionalCastExpr"):
            c = self.p.const_of(n)
            if c is not None:
                t = node_type(n)
                if isinstance(t, str) and (t in BITS or t == "bool"):
                    return V(lit(c, t), t, wrap(c, t))
        if k in ("ParenExpr", "ExprWithCleanups", "ConstantExpr", "MaterializeTemporaryExpr",
                 "CXXBindTemporaryExpr", "SubstNonTypeTemplateParmExpr"):
            return self.rvalue(inner[0])
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr",
                 "CXXReinterpretCastExpr", "CXXConstCastExpr"):
            return self.castexpr(n, inner)
        if k == "CXXThisExpr":
            t = node_type(n)
            if self.this_stack:
                pl = self.this_stack[-1]
                return V(pl.code, t, place=Place(pl.code, t[1], pl.ref))
            if self.f.ctor:
                return V("this", t, place=Place("this", t[1]))
            return V("self", t, place=Place("self", t[1], "&" if self.f.const else "&mut"))
        if k == "CXXNullPtrLiteralExpr":
            return V("", "null")
        if k == "DeclRefExpr":
            i = n["referencedDecl"]["id"]
            if i in self.p.consts:
                v, t = self.p.consts[i]
                return V(lit(v, t), t, v)
            pl = self.lvalue(n)
            return self.from_place(pl, n)
        if k in ("MemberExpr", "ArraySubscriptExpr"):
            i = n.get("referencedMemberDecl")
            if i in self.p.consts:
                v, t = self.p.consts[i]
                return V(lit(v, t), t, v)
            return self.from_place(self.lvalue(n), n)
        if k == "UnaryOperator":
            op = n["opcode"]
            if op == "&":
                return self.addressof(n, inner[0])
            if op == "*":
                return self.from_place(self.lvalue(n), n)
            if op in ("++", "--"):
                return self.incdec(n, True)
            v = self.rvalue(inner[0])
            if op == "!":
                return V("!%s" % paren(self.conv(v, "bool").code), "bool")
            t = node_type(n)
            v = self.conv(v, t)
            if op == "~":
                if t in ("i32", "i64"):
                    return V("not_%s(%s)" % (t, v.code), t)
                return V("(!%s)" % v.code, t)
            if op == "-":
                if t in ("i32", "i64"):
                    return V("(-%s)" % v.code, t)
                return V("sub_%s(%s, %s)" % (t, lit(0, t), v.code), t)
            if op == "+":
                return v
            self.bad("unary " + op, n)
        if k == "BinaryOperator":
            return self.binary(n, inner)
        if k == "CompoundAssignOperator":
            return self.compound(n)
        if k == "ConditionalOperator":
            c = self.cond(inner[0])
            a, pa = self.capture(lambda: self.rvalue(inner[1]))
            b, pb = self.capture(lambda: self.rvalue(inner[2]))
            t = node_type(n)
            if pa or pb:
                self.bad("side effects in ?:", n)
            if isinstance(t, str):
                a, b = self.conv(a, t), self.conv(b, t)
            elif a.place is not None or b.place is not None or a.mem is not None:
                self.bad("pointer ?:", n)
            return V("(if %s { %s } else { %s })" % (c, a.code, b.code), a.ty)
        if k == "UnaryExprOrTypeTraitExpr":
            if n.get("name") != "sizeof":
                self.bad("trait", n)
            if "argType" in n:
                at = parse_type(n["argType"].get("desugaredQualType", n["argType"]["qualType"]))
            else:
                a = strip_lv(inner[0])
                at = node_type(a)
            return self.sizeof(at)
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            v = self.call(n)
            if v is None:
                self.bad("call value", n)
            return v
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.construct(n, inner)
        if k == "CXXNewExpr":
            return self.newexpr(n, inner)
        if k == "CXXDefaultArgExpr":
            self.bad("default argument", n)
        if k in ("ImplicitValueInitExpr", "CXXScalarValueInitExpr"):
            t = node_type(n)
            if t in BITS or t == "bool":
                return V(lit(0, t), t, 0)
        if k == "InitListExpr" and len(inner) <= 1:
            t = node_type(n)
            if t in BITS or t == "bool":
                return self.conv(self.rvalue(inner[0]), t) if inner else V(lit(0, t), t, 0)
        self.bad("expression " + k, n)

    def sizeof(self, t):
        if isinstance(t, str) and t in BITS:
            v = BITS[t] // 8
        elif t == "bool":
            v = 1
        elif isinstance(t, tuple) and t[0] == "ptr":
            v = 8
        elif isinstance(t, tuple) and t[0] == "class":
            return V("sizeof_class()", "u64")
        elif isinstance(t, tuple) and t[0] == "ref":
            return self.sizeof(t[1])
        else:
            self.bad("sizeof")
        return V(lit(v, "u64"), "u64", v)

    def from_place(self, pl, n):
        if isinstance(pl, Mem):
            off = pl.off.read() if isinstance(pl.off, Place) else pl.off
            return V("", "mem", mem=Mem(pl.region, off, pl.elem, pl.const0, pl.view))
        t = pl.ty
        nt = None
        try:
            nt = node_type(n)
        except ExtractError:
            pass
        if isinstance(nt, tuple) and nt[0] == "ptr" and isinstance(nt[1], tuple):
            # pointer to an object: its place is the pointee
            e = t[1] if isinstance(t, tuple) and t[0] == "ptr" else t
            return V(pl.code, nt, place=Place(pl.code, e, pl.ref))
        if isinstance(nt, tuple) and nt[0] == "ptr" and pl.ref == "&mut" and isinstance(t, str):
            return V(pl.code, nt, place=pl)          # out parameter
        if isinstance(t, tuple) and t[0] == "ptr" and isinstance(t[1], str):
            # a heap array owned by a field: pointer to its start
            return V("", "mem", mem=Mem(Place(pl.code, ("vec", t[1])), "0u64", t[1], True))
        if pl.ref == "value":
            return V(pl.code, t)
        if isinstance(t, str) and t in (INTS | {"bool", "m128"}):
            return V(pl.read(), t)
        return V(pl.code, t, lv=pl)

    def addressof(self, n, e):
        x = strip_lv(e)
        if x["kind"] == "CXXOperatorCallExpr" and opname(x) == "operator[]":
            bp = self.place_of(x["inner"][1])
            if bp.ty == "Str":
                iv = self.conv(self.rvalue(x["inner"][2]), "u64")
                return V("", "mem", mem=Mem(Place("%s.b" % bp.code, ("vec", "char")), iv.code, "char"))
        pl = self.lvalue(e)
        if isinstance(pl, Mem):
            self.bad("address of pointer", n)
        return V("", ("addr", pl.ty), place=pl)

    def castexpr(self, n, inner):
        ck = n.get("castKind")
        e = inner[0]
        if ck in ("LValueToRValue",):
            pl = None
            s = strip_lv(e)
            if s["kind"] == "DeclRefExpr" and s["referencedDecl"]["id"] in self.p.consts:
                v, t = self.p.consts[s["referencedDecl"]["id"]]
                return V(lit(v, t), t, v)
            if s["kind"] == "MemberExpr" and s.get("referencedMemberDecl") in self.p.consts:
                v, t = self.p.consts[s["referencedMemberDecl"]]
                return V(lit(v, t), t, v)
            if e.get("kind") in ("CXXOperatorCallExpr", "CXXMemberCallExpr", "CallExpr", "UnaryOperator",
                                 "BinaryOperator", "CompoundAssignOperator") and \
                    not (e["kind"] == "UnaryOperator" and e["opcode"] == "*") and \
                    not (e["kind"] == "CXXOperatorCallExpr" and opname(e) == "operator[]") and \
                    not (e["kind"] == "CXXMemberCallExpr" and callee_name(e) == "back"):
                return self.rvalue(e)
            return self.from_place(self.lvalue(e), n)
        if ck in ("NoOp", "FunctionToPointerDecay", "ConstructorConversion", "ArrayToPointerDecay"):
            return self.rvalue(e)
        if ck in ("IntegralCast", "IntegralToBoolean"):
            v = self.rvalue(e)
            return self.conv(v, node_type(n))
        if ck in ("UncheckedDerivedToBase", "DerivedToBase"):
            v = self.rvalue(e)
            if v.place is None:
                self.bad("base of temporary", n)
            return V(v.place.code + ".base", node_type(n), place=self.to_base(v.place, n))
        if ck == "BitCast":
            v = self.rvalue(e)
            if isinstance(v.ty, tuple) and v.ty[0] == "addr":
                t = node_type(n)
                if isinstance(t, tuple) and t[0] == "ptr" and t[1] in ("char", "u8"):
                    return V("", ("bytesof", v.ty[1]), place=v.place)
            if v.mem is not None:
                t = node_type(n)
                e1, e2 = v.mem.view or v.mem.elem, t[1] if isinstance(t, tuple) and t[0] == "ptr" else None
                if e2 in INTS and BITS[e1] != BITS[e2]:
                    if BITS[e1] != 8 or e2 not in ("u32", "u64"):
                        self.bad("pointer cast", n)
                    return V("", "mem", mem=Mem(v.mem.region, v.mem.off, v.mem.elem, view=e2))
            return v
        if ck == "FloatingToIntegral":
            # floating point is not modelled: any value
            self.notes.append("floating-point value at line %s is taken as arbitrary" % n.get("_rline"))
            return V("uninit::<%s>()" % rty(node_type(n)), node_type(n))
        if ck == "NullToPointer":
            return V("", "null")
        if ck == "PointerToIntegral":
            v = self.rvalue(e)
            if v.mem is None:
                self.bad("pointer to integer", n)
            return V("mem_address(%s)" % v.mem.off, "u64", mem=None, lv=("addr", v.mem))
        if ck == "IntegralToPointer":
            v = self.rvalue(e)
            src = self.find_mem(e)
            if src is None:
                self.bad("integer to pointer", n)
            return V("", "mem", mem=Mem(src.region, "mem_offset(%s)" % v.code, src.elem))
        if ck == "ToVoid":
            v = self.rvalue(e)
            return V(v.code, "void")
        self.bad("cast %s" % ck, n)

    def find_mem(self, n):
        """the buffer a pointer-derived integer expression came from"""
        found = []

        def walk(x):
            if x.get("kind") == "DeclRefExpr":
                m = self.vars.get(x["referencedDecl"]["id"])
                if isinstance(m, Mem):
                    found.append(m)
            for y in x.get("inner", []):
                if isinstance(y, dict):
                    walk(y)
        walk(n)
        if len(found) == 1:
            return found[0]
        return None

    def binary(self, n, inner):
        op = n["opcode"]
        if op == "=":
            self.assign(inner[0], inner[1])
            return self.from_place(self.lvalue(inner[0]), n)
        if op == ",":
            self.effect(inner[0])
            return self.rvalue(inner[1])
        if op in ("&&", "||"):
            a = self.conv(self.rvalue(inner[0]), "bool")
            b, pre = self.capture(lambda: self.conv(self.rvalue(inner[1]), "bool"))
            if not pre:
                return V("(%s %s %s)" % (a.code, op, b.code), "bool")
            self.tmp += 1
            t = "tmp%d" % self.tmp
            self.out("let mut %s: bool = %s;" % (t, a.code))
            self.out("if %s%s {" % ("" if op == "&&" else "!", t))
            for l in pre:
                self.lines.append("    " + l)
            self.ind += 1
            self.out("%s = %s;" % (t, b.code))
            self.ind -= 1
            self.out("}")
            return V(t, "bool")
        a = self.rvalue(inner[0])
        b = self.rvalue(inner[1])
        t = node_type(n)
        if a.mem is not None or b.mem is not None:
            return self.ptr_binary(op, a, b, t, n)
        if op in ("==", "!=") and (a.ty == "null" or b.ty == "null"):
            self.bad("null comparison", n)
        return self.binop(op, a, b, t if op not in ("==", "!=", "<", ">", "<=", ">=") else "bool")

    def ptr_binary(self, op, a, b, t, n):
        if (a.mem is not None and a.mem.view) or (b.mem is not None and b.mem.view):
            self.bad("pointer arithmetic on a byte view", n)
        if a.mem is not None and b.mem is not None:
            if a.mem.region is not None and b.mem.region is not None and \
                    a.mem.region.code != b.mem.region.code:
                self.bad("pointers into different buffers", n)
            if op == "-":
                return V("ptr_diff(%s, %s)" % (a.mem.off, b.mem.off), "i64")
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return V("(%s %s %s)" % (a.mem.off, op, b.mem.off), "bool")
        if op in ("+", "-") and a.mem is not None:
            m, i = a.mem, b
        elif op == "+" and b.mem is not None:
            m, i = b.mem, a
        else:
            self.bad("pointer operator", n)
        iv = self.conv(i, "u64")
        if m.const0 and op == "+":
            off = iv.code
        else:
            off = "%s_u64(%s, %s)" % ("add" if op == "+" else "sub", m.off, iv.code)
        return V("", "mem", mem=Mem(m.region, off, m.elem))

    # ---- objects
    def to_field(self, v, ty):
        if isinstance(ty, tuple) and ty[0] == "ptr":
            e = ty[1]
            if v.ty == "null":
                if isinstance(e, str):
                    return "Vec::new()"
                self.bad("null object pointer")
            if isinstance(e, tuple) and e[1] in RC_CLASSES:
                if v.place is not None and v.place.ref == "Rc":
                    return v.place.code + ".clone()"
                if v.place is None:
                    return "Arc::new(%s)" % v.code
            if v.place is None:
                return v.code
            self.bad("pointer field")
        return self.conv(v, ty).code

    def construct(self, n, inner):
        t = node_type(n)
        ct = n.get("ctorType", {}).get("qualType", "")
        if isinstance(t, tuple) and t[0] == "vec":
            if not inner:
                return V("Vec::new()", t)
            if len(inner) == 1 and "vector<" in ct:
                v = self.rvalue(inner[0])
                if v.lv is not None and not ct.strip().endswith("&&) noexcept") and "&&" not in ct:
                    return V("vec_clone(%s)" % v.lv.borrow(), t)
                return v
            self.bad("vector constructor " + ct, n)
        if t == "Str":
            if not inner or all(y["kind"] == "CXXDefaultArgExpr" for y in inner):
                return V("Str::empty()", "Str")
            if "basic_string" in ct.split("(")[1] and len(inner) == 1:
                v = self.rvalue(inner[0])
                if "&&" in ct:
                    return V(v.code if v.lv is None else v.lv.code, "Str")
                return V("str_clone(%s)" % v.lv.borrow(), "Str") if v.lv is not None else v
            args = [y for y in inner if y["kind"] != "CXXDefaultArgExpr"]
            if len(args) == 2:
                p = self.rvalue(args[0])
                ln = self.conv(self.rvalue(args[1]), "u64")
                if isinstance(p.ty, tuple) and p.ty[0] == "bytesof" and p.ty[1] == "u64":
                    return V("str_from_u64_bytes(%s, %s)" % (p.place.read(), ln.code), "Str")
                if p.mem is not None and p.mem.elem in ("char", "u8"):
                    return V("str_from_mem(%s, %s, %s)" % (p.mem.region.borrow(), p.mem.off, ln.code), "Str")
            self.bad("string constructor " + ct, n)
        if isinstance(t, tuple) and t[0] == "class":
            if "&&" in ct or (len(inner) == 1 and re.search(r"\(const (surf::)?[A-Za-z:]+ &\)", ct)
                              and self.same_class(inner[0], t)):
                v = self.rvalue(inner[0])
                if "&&" in ct:
                    return V(v.code, t) if v.lv is None else V(v.lv.code, t)
                if v.lv is None:
                    return v
                return V("%s.vp_clone()" % v.lv.code, t)
            f = self.p.ctor(n)
            if f is None:
                self.bad("constructor " + ct, n)
            return V("%s::%s(%s)" % (f.cls, f.rname, self.args(f, inner, n)), t)
        self.bad("construct %r" % (t,), n)

    def same_class(self, e, t):
        try:
            et = node_type(e)
        except ExtractError:
            return False
        return et == t

    def newexpr(self, n, inner):
        t = node_type(n)[1]
        if n.get("isArray"):
            if t not in INTS:
                self.bad("new[]", n)
            size = None
            zero = False
            for y in inner:
                if y["kind"] in ("ImplicitValueInitExpr", "InitListExpr"):
                    zero = True
                elif size is None:
                    size = y
            zero = zero or n.get("initStyle") in ("call", "list")
            sz = self.conv(self.rvalue(size), "u64")
            return V("new_array%s_%s(%s)" % ("_zero" if zero else "", rty(t), sz.code), ("newarr", t))
        c = [y for y in inner if y["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr")]
        if isinstance(t, tuple) and t[0] == "class" and c:
            v = self.construct(c[0], [y for y in c[0].get("inner", []) if isinstance(y, dict)])
            return V(v.code, t)
        self.bad("new", n)

    # ---- calls
    def args(self, f, nodes, n, recv_mut=False):
        nodes = [y for y in nodes if y["kind"] != "CXXDefaultArgExpr"]
        if len(nodes) > len(f.pmodes):
            self.bad("argument count of " + f.key, n)
        full = list(nodes)
        for p in f.pmodes[len(nodes):]:
            d = [y for y in p["node"].get("inner", []) if isinstance(y, dict)]
            # defaults may live on the first declaration
            if not d:
                i = f.pmodes.index(p)
                d = [y for y in [q for q in f.node.get("inner", []) if q.get("kind") == "ParmVarDecl"][i]
                     .get("inner", []) if isinstance(y, dict)]
            if not d:
                self.bad("default argument of " + f.key, n)
            full.append(d[0])
        self.calls.add(f.key)
        mut = recv_mut or any(p["mode"] in ("mref", "cursorref") or p["acc"] == "w" for p in f.pmodes)
        res = []
        for a, p in zip(full, f.pmodes):
            m = p["mode"]
            if m == "val":
                t = p["ty"]
                if isinstance(t, tuple) and t[0] == "ref":
                    t = t[1]
                v = self.conv(self.rvalue(a), t)
                code = v.code
                if v.lv is not None and not isinstance(t, str):
                    code = v.lv.code
                if mut and not re.match(r"^[\w]+$", code):
                    code = self.fresh(code, rty(t))
                res.append(code)
            elif m == "cref":
                t = p["ty"]
                if t[0] == "ptr":
                    v = self.rvalue(a)
                    if v.place is None:
                        self.bad("pointer argument", n)
                    res.append(v.place.borrow())
                else:
                    if is_temp(a):
                        v = self.rvalue(a)
                        if v.lv is not None:
                            res.append(v.lv.borrow())
                        else:
                            res.append("&" + self.fresh(v.code, rty(v.ty)))
                    else:
                        res.append(self.lvalue(a).borrow())
            elif m == "mref":
                if p["ty"][0] == "ptr":
                    v = self.rvalue(a)
                    if v.place is None:
                        self.bad("pointer argument", n)
                    res.append(v.place.borrow_mut())
                else:
                    pl = self.lvalue(a)
                    if isinstance(pl, Mem):
                        self.bad("reference argument", n)
                    res.append(pl.borrow_mut())
            elif m == "rc":
                v = self.rvalue(a)
                if v.place is None or v.place.ref != "Rc":
                    self.bad("shared pointer argument", n)
                res.append(v.place.code + ".clone()")
            elif m == "vecref":
                v = self.rvalue(a)
                if v.mem is None or v.mem.off != "0u64" or v.mem.view:
                    self.bad("array argument", n)
                res.append(v.mem.region.borrow())
            elif m in ("cursor", "cursorref"):
                if m == "cursorref":
                    mm = self.lvalue(a)
                    if not isinstance(mm, Mem) or not isinstance(mm.off, Place):
                        self.bad("cursor argument", n)
                    off = mm.off.borrow_mut()
                else:
                    v = self.rvalue(a)
                    if isinstance(v.ty, tuple) and v.ty[0] == "bytesof" and v.ty[1] == "u64" and p["acc"] != "w":
                        v = V("", "mem", mem=Mem(Place(self.fresh("u64_le_bytes(%s)" % v.place.read()), ("vec", "u8")), "0u64", "u8"))
                    if v.mem is None or v.mem.view or BITS[v.mem.elem] != BITS[p["elem"]]:
                        self.bad("cursor argument", n)
                    mm = v.mem
                    off = mm.off
                if p["acc"]:
                    if mm.region is None:
                        self.bad("cursor without buffer", n)
                    res.append(mm.region.borrow_mut() if p["acc"] == "w" else mm.region.borrow())
                res.append(off)
            else:
                self.bad("argument of " + f.key, n)
        return ", ".join(res + self.ghost_args(f))

    def ghost_args(self, f):
        """ghost parameters are passed by name"""
        own = [g[0] for g in self.p.ghosts.get(self.f.key, [])] if self.h.c else []
        text = "".join(self.h.c.values())
        return ["Ghost(%s)" % g if g in own or re.search(r"\bghost (?:mut )?%s\b" % g, text) else "Ghost(arbitrary())"
                for g, _ in self.p.ghosts.get(f.key, [])]

    def call(self, n, stmt=False):
        k = n["kind"]
        inner = [y for y in n["inner"] if isinstance(y, dict)]
        if k == "CXXOperatorCallExpr":
            return self.opcall(n, inner, stmt)
        f = self.p.callee(n)
        if f is not None and self.inlinable(f):
            return self.inline(f, n, inner)
        if f is not None:
            rt = f.ret_t
            vt = rt
            if k == "CXXMemberCallExpr" and not f.static:
                m = strip_value(inner[0])
                recv = self.deref_place(m["inner"][0]) if m.get("isArrow") else self.place_of(m["inner"][0])
                mut = not f.const
                rcode = recv.code
                if mut:
                    if recv.ref in ("&", "Rc"):
                        self.bad("mutating call through shared reference", n)
                    rcode = self.stabilize(recv)
                a = self.args(f, inner[1:], n, mut)
                return self.retv("%s.%s(%s)" % (rcode, f.rname, a), rt, f)
            a = self.args(f, inner[1:], n)
            q = "%s::" % f.cls if f.cls else ""
            return self.retv("%s%s%s(%s)" % (q, f.rname, "_det" if f.key in self.p.det else "", a), rt, f)
        nm = callee_name(n)
        if k == "CXXMemberCallExpr":
            return self.stdmethod(n, nm, inner)
        return self.builtin(n, nm, inner)

    # ---- helpers that have no contract are inlined where they are called
    def inlinable(self, f):
        return f.key in self.p.inline and f not in self.inl and len(self.inl) < 6

    def inline(self, f, n, inner):
        self.inlined.add(f.key)
        args = inner[1:]
        this = None
        if n["kind"] == "CXXMemberCallExpr" and not f.static:
            m = strip_value(inner[0])
            this = self.deref_place(m["inner"][0]) if m.get("isArrow") else self.place_of(m["inner"][0])
            if not re.match(r"^[\w.]+$", this.code):
                self.bad("inlining of %s on an element" % f.key, n)
        args = [y for y in args if y["kind"] != "CXXDefaultArgExpr"]
        if len(args) != len(f.pmodes):
            self.bad("default argument of " + f.key, n)
        assigned = assigned_vars(f.body)
        self.assigned = self.assigned | assigned
        self.tmp += 1
        sfx = "_i%d" % self.tmp
        bind = {}
        for a, p in zip(args, f.pmodes):
            m = p["mode"]
            t = p.get("ty")
            if m == "val":
                if isinstance(t, tuple) and t[0] == "ref":
                    t = t[1]
                v = self.conv(self.rvalue(a), t)
                code = v.code
                if v.lv is not None and not isinstance(t, str):
                    self.bad("object argument of inlined " + f.key, n)
                nm = rname(p["name"]) + sfx
                self.out("let mut %s: %s = %s;" % (nm, rty(t), code))
                bind[p["id"]] = Place(nm, t)
            elif m in ("cref", "mref"):
                if t[0] == "ptr":
                    v = self.rvalue(a)
                    if v.place is None:
                        self.bad("pointer argument", n)
                    bind[p["id"]] = v.place
                elif is_temp(a):
                    v = self.rvalue(a)
                    if v.lv is not None:
                        bind[p["id"]] = v.lv
                    else:
                        bind[p["id"]] = Place(self.fresh(v.code, rty(v.ty)), v.ty)
                else:
                    pl = self.lvalue(a)
                    if isinstance(pl, Mem) or "(" in pl.code:
                        self.bad("reference argument of inlined " + f.key, n)
                    bind[p["id"]] = pl
            elif m in ("vecref", "cursor"):
                v = self.rvalue(a)
                if v.mem is None:
                    self.bad("pointer argument of inlined " + f.key, n)
                if p["id"] in assigned:
                    nm = rname(p["name"]) + sfx
                    self.out("let mut %s: u64 = %s;" % (nm, v.mem.off))
                    bind[p["id"]] = Mem(v.mem.region, Place(nm, "u64"), v.mem.elem, view=v.mem.view)
                else:
                    bind[p["id"]] = v.mem
            elif m == "cursorref":
                mm = self.lvalue(a)
                if not isinstance(mm, Mem) or not isinstance(mm.off, Place):
                    self.bad("cursor argument", n)
                bind[p["id"]] = mm
            else:
                self.bad("argument of inlined " + f.key, n)
        self.vars.update(bind)
        saved = self.rename
        self.rename = dict(saved)
        for (nm, _t) in locals_of(f):
            self.rename[nm] = nm + sfx
        self.this_stack.append(this)
        if this is None:
            self.this_stack.pop()
        self.inl.append(f)
        saved_brk, saved_inc = self.brk, self.loop_inc
        self.brk, self.loop_inc = [], []
        try:
            stmts = f.body.get("inner", [])
            t = f.ret_t
            if stmts and stmts[-1]["kind"] == "ReturnStmt" and not any(contains_kind(x, ("ReturnStmt",)) for x in stmts[:-1]) \
                    and t != "void":
                for x in stmts[:-1]:
                    self.stmt(x)
                v = self.conv(self.rvalue(stmts[-1]["inner"][0]), t)
                return v
            if t == "void":
                if any(contains_kind(x, ("ReturnStmt",)) for x in stmts):
                    self.bad("inlining of " + f.key, n)
                for x in stmts:
                    self.stmt(x)
                return V("", "void")
            if not isinstance(t, str):
                self.bad("inlining of " + f.key, n)
            r = "ret" + sfx
            self.out("let %s: %s;" % (r, rty(t)))
            self.inline_tail(stmts, r, t, f)
            return V(r, t)
        finally:
            self.brk, self.loop_inc = saved_brk, saved_inc
            self.inl.pop()
            if this is not None:
                self.this_stack.pop()
            self.rename = saved

    def inline_tail(self, stmts, r, t, f):
        """statements that end in a return on every path; the value goes to r"""
        if not stmts:
            self.bad("inlining of " + f.key)
        s = stmts[0]
        if s["kind"] == "ReturnStmt":
            v = self.conv(self.rvalue(s["inner"][0]), t)
            self.out("%s = %s;" % (r, v.code))
            return
        if s["kind"] == "CompoundStmt":
            return self.inline_tail(list(s.get("inner", [])) + list(stmts[1:]), r, t, f)
        if not contains_kind(s, ("ReturnStmt",)):
            self.stmt(s)
            return self.inline_tail(stmts[1:], r, t, f)
        if s["kind"] != "IfStmt" or s.get("hasVar") or s.get("hasInit"):
            self.bad("inlining of " + f.key)
        inner = [y for y in s["inner"] if isinstance(y, dict)]
        k = self.h.next("if")
        c = self.cond(inner[0])
        self.out("if %s {" % c)
        self.ind += 1
        self.inline_tail([inner[1]] + ([] if ends_in_return(inner[1]) else list(stmts[1:])), r, t, f)
        self.ind -= 1
        self.out("} else {")
        self.ind += 1
        self.inline_tail(([inner[2]] if s.get("hasElse") else []) + list(stmts[1:]), r, t, f)
        self.ind -= 1
        self.out("}")

    def retv(self, code, rt, f):
        if isinstance(rt, tuple) and rt[0] == "ref":
            return V(code, rt[1], lv=Place(code, rt[1], "&"))
        if isinstance(rt, tuple) and rt[0] == "ptr" and isinstance(rt[1], tuple):
            return V(code, rt[1])
        if isinstance(rt, tuple) and rt[0] == "ptr":
            return V(code, ("newarr", rt[1]))
        return V(code, rt)

    def stabilize(self, pl):
        """index expressions inside a mutated place are evaluated first"""
        code = pl.code

        def rep(m):
            if re.match(r"^[\w]+ as usize$", m.group(1)) or re.match(r"^\d+u64 as usize$", m.group(1)):
                return m.group(0)
            return "[%s]" % self.fresh(m.group(1), "usize")
        return re.sub(r"\[([^\[\]]*(?:\[[^\[\]]*\][^\[\]]*)*)\]", rep, code)

    def opcall(self, n, inner, stmt):
        o = opname(n)
        f = self.p.callee_op(n)
        if o in ("operator++", "operator--") and f is not None:
            pl = self.place_of(inner[1])
            if pl.ref in ("&", "Rc"):
                self.bad("mutating call through shared reference", n)
            self.calls.add(f.key)
            a = ", ".join((["0i32"] if f.params else []) + self.ghost_args(f))
            # clang passes the dummy argument of the postfix form
            return self.retv("%s.%s(%s)" % (pl.code, f.rname, a), f.ret_t, f)
        if o == "operator=":
            l, r = inner[1], inner[2]
            ll = strip_lv(l)
            while ll["kind"] in ("MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr",
                                 "ParenExpr") or (ll["kind"] == "ImplicitCastExpr" and ll["castKind"] == "NoOp"):
                ll = ll["inner"][0]
            if ll["kind"] == "CXXOperatorCallExpr" and opname(ll) == "operator[]":
                bp = self.place_of(ll["inner"][1])
                if isinstance(bp.ty, tuple) and bp.ty == ("vec", "bool"):
                    v = self.conv(self.rvalue(r), "bool")
                    i = self.conv(self.rvalue(ll["inner"][2]), "u64")
                    self.out("%s[%s as usize] = %s;" % (bp.code, i.code, v.code))
                    return V("", "void")
            if f is not None:
                self.bad("user operator=", n)
            pl = self.lvalue(l)
            v = self.rvalue(r)
            code = v.code
            if v.lv is not None:
                t = node_type(n["inner"][0]) if False else None
                q = inner[0]
                sig = q.get("type", {}).get("qualType", "") + json.dumps(strip_value(q).get("referencedDecl", {}).get("type", {}))
                if "&&" in sig:
                    code = v.lv.code
                elif pl.ty == "Str":
                    code = "str_clone(%s)" % v.lv.borrow()
                elif isinstance(pl.ty, tuple) and pl.ty[0] == "vec":
                    code = "vec_clone(%s)" % v.lv.borrow()
                else:
                    code = "%s.vp_clone()" % v.lv.code
            if re.search(r"\(", code) and re.search(r"\bself\b|\bthis\b", code):
                code = self.fresh(code, rty(pl.ty))
            self.store(pl, code)
            return V("", "void")
        if o == "operator[]":
            if f is not None:
                pl = self.place_of(inner[1])
                a = self.args(f, inner[2:], n, not f.const)
                return self.retv("%s.%s(%s)" % (pl.code, f.rname, a), f.ret_t, f)
            return self.from_place(self.lvalue(n), n)
        if o == "operator+":
            a, b = self.strref(inner[1]), self.strref(inner[2])
            return V("str_concat(%s, %s)" % (a, b), "Str")
        if o in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
            a, b = self.strref(inner[1]), self.strref(inner[2])
            return V("(str_compare(%s, %s) %s 0i32)" % (a, b, o[8:]), "bool")
        if o == "operator+=":
            pl = self.place_of(inner[1])
            if pl.ty == "Str":
                t = self.strref(inner[2])
                return V("str_append_str(%s, %s)" % (pl.borrow_mut(), t), "void")
        self.bad("operator call " + o, n)

    def strref(self, e):
        if is_temp(e):
            v = self.rvalue(e)
            if v.ty != "Str":
                self.bad("string operand", e)
            return v.lv.borrow() if v.lv is not None else "&" + self.fresh(v.code, "Str")
        p = self.lvalue(e)
        if p.ty != "Str":
            self.bad("string operand", e)
        return p.borrow()

    def stdmethod(self, n, nm, inner):
        m = strip_value(inner[0])
        if m["kind"] != "MemberExpr":
            self.bad("member call", n)
        recv = self.deref_place(m["inner"][0]) if m.get("isArrow") else self.place_of(m["inner"][0])
        args = [y for y in inner[1:] if y["kind"] != "CXXDefaultArgExpr"]
        t = recv.ty
        if t == "Str":
            if nm in ("length", "size") and not args:
                return V("%s.len()" % recv.code, "u64")
            if nm == "empty" and not args:
                return V("(%s.len() == 0u64)" % recv.code, "bool")
            if nm == "compare" and len(args) == 1:
                return V("str_compare(%s, %s)" % (recv.borrow(), self.strref(args[0])), "i32")
            if nm == "compare" and len(args) == 3:
                a = [self.conv(self.rvalue(x), "u64").code for x in args[:2]]
                s = self.fresh("str_substr(%s, %s, %s)" % (recv.borrow(), a[0], a[1]), "Str")
                return V("str_compare(&%s, %s)" % (s, self.strref(args[2])), "i32")
            if nm == "substr" and len(args) <= 2:
                a = [self.conv(self.rvalue(x), "u64").code for x in args]
                a = a + ["0u64", "0xffffffffffffffffu64"][len(a):]
                return V("str_substr(%s, %s, %s)" % (recv.borrow(), a[0], a[1]), "Str")
            if nm in ("c_str", "data") and not args:
                return V("", "mem", mem=Mem(Place("%s.b" % recv.code, ("vec", "char")), "0u64", "char"))
            if nm == "resize" and len(args) == 2:
                return V("str_resize(%s, %s, %s)" % (recv.borrow_mut(), self.conv(self.rvalue(args[0]), "u64").code,
                                                     self.conv(self.rvalue(args[1]), "char").code), "void")
            if nm == "append" and len(args) == 2:
                p = self.rvalue(args[0])
                ln = self.conv(self.rvalue(args[1]), "u64")
                if p.mem is not None:
                    return V("str_append_mem(%s, %s, %s, %s)" % (recv.borrow_mut(), p.mem.region.borrow(),
                                                                 p.mem.off, ln.code), "void")
                if isinstance(p.ty, str) and p.ty == "u64":
                    pass
            if nm == "append" and len(args) == 1:
                return V("str_append_str(%s, %s)" % (recv.borrow_mut(), self.strref(args[0])), "void")
            if nm == "push_back":
                return V("str_push(%s, %s)" % (recv.borrow_mut(), self.conv(self.rvalue(args[0]), "char").code), "void")
        if isinstance(t, tuple) and t[0] == "vec":
            if nm == "size" and not args:
                return V("(%s.len() as u64)" % recv.code, "u64")
            if nm == "empty" and not args:
                return V("(%s.len() == 0)" % recv.code, "bool")
            if nm in ("push_back", "emplace_back") and len(args) == 1:
                v = self.conv(self.rvalue(args[0]), t[1])
                code = v.code
                if v.lv is not None and not isinstance(t[1], str):
                    code = "vec_clone(%s)" % v.lv.borrow()
                if recv.ref in ("&", "Rc"):
                    self.bad("push_back through const", n)
                if not re.match(r"^[\w]+$", code) and code != "Vec::new()":
                    code = self.fresh(code, rty(t[1]))
                return V("%s.push(%s)" % (self.stabilize(recv), code), "void")
            if nm == "pop_back" and not args:
                return V("vec_pop_back(%s)" % recv.borrow_mut(), "void")
            if nm == "back" and not args:
                return V("%s[vec_back_index(%s)]" % (recv.code, recv.borrow()), t[1])
            if nm == "data" and not args:
                return V("", "mem", mem=Mem(Place(recv.code, t, recv.ref), "0u64", t[1], True))
            if nm in ("reserve", "shrink_to_fit"):
                return V("", "void")
            if nm == "clear":
                return V("%s.clear()" % recv.code, "void")
            if nm == "at":
                i = self.conv(self.rvalue(args[0]), "u64")
                return V("%s[%s as usize]" % (recv.code, i.code), t[1])
        self.bad("method " + str(nm), n)

    def builtin(self, n, nm, inner):
        a = inner[1:]
        if nm in DROPPED:
            return V("", "void")
        if nm == "vp_assert":
            return V("vp_assert(%s)" % self.conv(self.rvalue(a[0]), "bool").code, "void")
        simple = {"__builtin_popcountll": ("popcountll", "u64", "i32"),
                  "__builtin_popcountl": ("popcountll", "u64", "i32"),
                  "__builtin_popcount": ("popcount32", "u32", "i32"),
                  "__builtin_clzll": ("clzll", "u64", "i32"), "__builtin_clzl": ("clzll", "u64", "i32"),
                  "__builtin_ctzll": ("ctzll", "u64", "i32"), "__builtin_ctzl": ("ctzll", "u64", "i32"),
                  "__builtin_ctz": ("ctz32", "u32", "i32"),
                  "__builtin_bswap64": ("bswap64", "u64", "u64")}
        if nm in simple:
            g, at, rt = simple[nm]
            v = self.conv(self.rvalue(a[0]), at)
            return V("%s(%s)" % (g, v.code), rt)
        if nm == "__builtin_expect":
            return self.rvalue(a[0])
        if nm == "_mm_set1_epi8":
            return V("mm_set1_epi8(%s)" % self.conv(self.rvalue(a[0]), "char").code, "m128")
        if nm == "_mm_cmpeq_epi8":
            return V("mm_cmpeq_epi8(%s, %s)" % (self.rvalue(a[0]).code, self.rvalue(a[1]).code), "m128")
        if nm == "_mm_movemask_epi8":
            return V("mm_movemask_epi8(%s)" % self.rvalue(a[0]).code, "i32")
        if nm == "_mm_loadu_si128":
            v = self.rvalue(a[0])
            if v.mem is None or v.mem.elem not in ("u8", "char"):
                self.bad("load", n)
            return V("mm_loadu_si128(%s, %s)" % (v.mem.region.borrow(), v.mem.off), "m128")
        if nm == "memset":
            p = self.rvalue(a[0])
            val = self.p.const_of(a[1])
            ln = self.conv(self.rvalue(a[2]), "u64")
            if p.mem is not None and val == 0:
                ln.code = self.hoist(ln.code, "u64")
                p.mem.off = self.hoist(p.mem.off, "u64")
                self.out("mem_zero_%s(%s, %s, %s);" % (rty(p.mem.elem), p.mem.region.borrow_mut(), p.mem.off, ln.code))
                return V("", "void")
            self.bad("memset", n)
        if nm == "memcpy":
            return self.memcpy(n, a)
        if nm in ("move", "forward"):
            return self.rvalue(a[0])
        if nm in ("min", "max") and node_type(n) in INTS | {("ref", "u32", True), ("ref", "u64", True)}:
            x, y = self.rvalue(a[0]), self.rvalue(a[1])
            return V("(if %s %s %s { %s } else { %s })" % (y.code, "<" if nm == "min" else ">", x.code, y.code, x.code), x.ty)
        self.bad("call of " + str(nm), n)

    def memcpy(self, n, a):
        d = self.rvalue(a[0])
        s = self.rvalue(a[1])
        ln = self.conv(self.rvalue(a[2]), "u64")
        scalar = lambda v: isinstance(v.ty, tuple) and v.ty[0] in ("addr", "bytesof")
        if scalar(d) and s.mem is not None and s.mem.elem in ("char", "u8"):
            t = d.place.ty
            if ln.const is None or ln.const * 8 != BITS.get(t, -1):
                self.bad("memcpy size", n)
            self.store(d.place, "mem_get_%s(%s, %s)" % (rty(t), s.mem.region.borrow(), s.mem.off))
            return V("", "void")
        if scalar(s) and d.mem is not None and d.mem.elem in ("char", "u8"):
            t = s.place.ty
            if ln.const is None or ln.const * 8 != BITS.get(t, -1):
                self.bad("memcpy size", n)
            self.out("mem_put_%s(%s, %s, %s);" % (rty(t), d.mem.region.borrow_mut(), d.mem.off, s.place.read()))
            return V("", "void")
        if d.mem is not None and s.mem is not None:
            ln.code = self.hoist(ln.code, "u64")
            if d.mem.elem == "char":
                self.out("mem_put_%ss(%s, %s, %s, %s, %s);" % (
                    rty(s.mem.elem), d.mem.region.borrow_mut(), d.mem.off, s.mem.region.borrow(), s.mem.off, ln.code))
                return V("", "void")
            if s.mem.elem == "char":
                self.out("mem_get_%ss(%s, %s, %s, %s, %s);" % (
                    rty(d.mem.elem), d.mem.region.borrow_mut(), d.mem.off, s.mem.region.borrow(), s.mem.off, ln.code))
                return V("", "void")
        self.bad("memcpy", n)


# ---------------------------------------------------------------- helpers
def paren(c):
    return c if re.match(r"^[\w.]+$", c) or (c.startswith("(") and c.endswith(")")) else "(%s)" % c


def opname(n):
    c = n["inner"][0]
    while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
        c = c["inner"][0]
    return c.get("referencedDecl", {}).get("name")


def callee_op(self, n):
    c = n["inner"][0]
    while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
        c = c["inner"][0]
    i = c.get("referencedDecl", {}).get("id")
    return self.funcs.get(self.prev.get(i, i))


Program.callee_op = callee_op
_orig_callee = Program.callee


def _callee(self, n):
    if n.get("kind") == "CXXOperatorCallExpr":
        return callee_op(self, n)
    return _orig_callee(self, n)


Program.callee = _callee


def ends_in_return(n):
    if n["kind"] == "ReturnStmt":
        return True
    if n["kind"] == "CompoundStmt":
        i = n.get("inner", [])
        return bool(i) and ends_in_return(i[-1])
    if n["kind"] == "IfStmt" and n.get("hasElse"):
        i = [y for y in n["inner"] if isinstance(y, dict)]
        return ends_in_return(i[1]) and ends_in_return(i[2])
    return False


def pure_function(prog, f, seen=()):
    """Is the result (return value and what is stored through pointers) a function of the arguments alone?
    No globals but constants, no uninitialized locals, no reads through the pointers that are written."""
    if f.body is None or f.cls is not None or f in seen:
        return False
    ok = [True]
    local = {p["id"] for p in f.pmodes}
    outs = {p["id"] for p in f.pmodes if p["acc"] == "w" or p["mode"] == "mref"}

    def walk(n, lhs=False):
        k = n.get("kind")
        inner = [y for y in n.get("inner", []) if isinstance(y, dict)]
        if k == "VarDecl":
            local.add(n["id"])
            t = node_type(n)
            if n.get("storageClass") == "static" or not inner:
                ok[0] = False
        if k in ("CXXThisExpr", "GCCAsmStmt", "CXXNewExpr", "LambdaExpr"):
            ok[0] = False
        if k == "ImplicitCastExpr" and n.get("castKind") in ("PointerToIntegral",):
            ok[0] = False
        if k == "DeclRefExpr":
            r = n["referencedDecl"]
            if r["kind"] in ("VarDecl", "ParmVarDecl") and r["id"] not in local and r["id"] not in prog.consts:
                ok[0] = False
            if r["id"] in outs and not lhs:
                ok[0] = False
        if k == "BinaryOperator" and n["opcode"] == "=":
            b = inner[0]
            while b.get("kind") == "ParenExpr":
                b = b["inner"][0]
            if b.get("kind") == "ArraySubscriptExpr":
                walk(b["inner"][0], True)
                walk(b["inner"][1])
                walk(inner[1])
                return
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            g = prog.callee(n)
            if g is not None:
                if not pure_function(prog, g, tuple(seen) + (f,)):
                    ok[0] = False
                walk(inner[0])
                for a, p in zip(inner[1:], g.pmodes):
                    b = a
                    while b.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
                        b = b["inner"][0]
                    is_out = p["acc"] == "w" and b.get("kind") == "DeclRefExpr"
                    walk(a, is_out)
                return
            if callee_name(n) not in ("size", "length", "c_str", "data", "memcpy", "__builtin_bswap64"):
                ok[0] = False
            if k == "CXXMemberCallExpr":
                # a const method of a string parameter
                pass
        for y in inner:
            walk(y, lhs and k in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr"))
    walk(f.body)
    return ok[0]


def strip_value(n):
    while n["kind"] in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
                        "ConstantExpr"):
        n = n["inner"][0]
    return n


def strip_lv(n):
    while n["kind"] in ("ParenExpr", "ExprWithCleanups", "ConstantExpr") or \
            (n["kind"] == "ImplicitCastExpr" and n.get("castKind") in ("NoOp", "LValueToRValue")):
        n = n["inner"][0]
    return n


def is_temp(n):
    m = n
    while m["kind"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups"):
        m = m["inner"][0]
    return m["kind"] in ("MaterializeTemporaryExpr", "CXXBindTemporaryExpr") or m.get("valueCategory") == "prvalue"


def no_effect(n):
    k = n.get("kind")
    if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CompoundAssignOperator",
             "CXXNewExpr", "CXXDeleteExpr", "CXXTemporaryObjectExpr", "LambdaExpr", "StmtExpr"):
        return False
    if k == "UnaryOperator" and n["opcode"] in ("++", "--"):
        return False
    if k == "BinaryOperator" and n["opcode"] == "=":
        return False
    if k in ("ArraySubscriptExpr",) or (k == "UnaryOperator" and n["opcode"] == "*"):
        return False     # an access is checked
    return all(no_effect(y) for y in n.get("inner", []) if isinstance(y, dict))


def contains_kind(n, kinds):
    if n.get("kind") in kinds:
        return True
    return any(contains_kind(y, kinds) for y in n.get("inner", []) if isinstance(y, dict))


def contains_break(n):
    if n.get("kind") == "BreakStmt":
        return True
    if n.get("kind") in ("ForStmt", "WhileStmt", "DoStmt", "SwitchStmt"):
        return False
    return any(contains_break(y) for y in n.get("inner", []) if isinstance(y, dict))


def assigned_vars(n):
    """ids of variables assigned, incremented, or bound to a mutable reference"""
    s = set()

    def base(x):
        while x.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            x = x["inner"][0]
        if x.get("kind") == "DeclRefExpr":
            return x["referencedDecl"]["id"]
        return None

    def walk(x):
        k = x.get("kind")
        inner = [y for y in x.get("inner", []) if isinstance(y, dict)]
        if (k == "BinaryOperator" and x["opcode"] == "=") or k == "CompoundAssignOperator" or \
                (k == "UnaryOperator" and x["opcode"] in ("++", "--", "&")):
            b = base(inner[0])
            if b:
                s.add(b)
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr"):
            for a in inner:
                # an lvalue argument may be bound to a reference
                if a.get("valueCategory") == "lvalue":
                    b = base(a)
                    if b:
                        s.add(b)
        for y in inner:
            walk(y)
    walk(n)
    return s


def is_trivial_destroy(f):
    """delete-only functions (memory release is not modelled)"""
    return f.name == "destroy"


# ====================================================================== crate
def parse_contracts(d):
    """*.vc files -> {fn key: {anchor: text}}, {module: [text]}"""
    fns, mods = {}, {}
    for name in sorted(os.listdir(d)):
        if not name.endswith(".vc"):
            continue
        cur, key = None, None
        for ln, line in enumerate(open(os.path.join(d, name)), 1):
            m = re.match(r"^=== (fn|mod) (\S+)\s*$", line)
            if m:
                if m.group(1) == "fn":
                    if m.group(2) in fns:
                        raise SystemExit("%s:%d: duplicate contract %s" % (name, ln, m.group(2)))
                    cur = fns.setdefault(m.group(2), {})
                    key = None
                else:
                    cur, key = mods.setdefault(m.group(2), []), "mod"
                continue
            m = re.match(r"^--- (.*?)\s*$", line)
            if m and isinstance(cur, dict):
                key = m.group(1)
                if key in cur:
                    raise SystemExit("%s:%d: duplicate anchor %s" % (name, ln, key))
                cur[key] = ""
                continue
            if cur is None or key is None:
                if line.strip():
                    raise SystemExit("%s:%d: text outside a section" % (name, ln))
                continue
            if isinstance(cur, list):
                cur.append(line)
            else:
                cur[key] += line
    return fns, {k: "".join(v) for k, v in mods.items()}


def locals_of(f):
    res = []

    def walk(n):
        if n.get("kind") == "VarDecl":
            try:
                t = rty(node_type(n))
            except (ExtractError, Unsupported):
                t = "?"
            res.append((n.get("name", ""), t))
        for y in n.get("inner", []):
            if isinstance(y, dict):
                walk(y)
    if f.body is not None:
        walk(f.body)
    return res


STMTS = {"IfStmt": "if", "ForStmt": "for", "WhileStmt": "while", "DoStmt": "do", "SwitchStmt": "switch", "ReturnStmt": "ret",
         "BreakStmt": "brk", "ContinueStmt": "cont", "DeclStmt": "decl", "CXXForRangeStmt": "range", "CaseStmt": "case"}
NESTED = ("CompoundStmt", "IfStmt", "ForStmt", "WhileStmt", "DoStmt", "SwitchStmt", "CaseStmt", "DefaultStmt", "CXXForRangeStmt",
          "LabelStmt")


def shape_of(f):
    """the kinds of the statements of a function, in order"""
    res = []

    def stmt(n):
        k = n.get("kind")
        if not k:
            return
        inner = [y for y in n.get("inner", []) if isinstance(y, dict)]
        if k == "NullStmt":
            return
        if k == "CompoundStmt":
            for y in inner:
                stmt(y)
            return
        if k in STMTS:
            res.append(STMTS[k] + ("/else" if n.get("hasElse") else ""))
        if k in NESTED:
            for y in inner:
                if y.get("kind") in STMTS or y.get("kind") in NESTED:
                    stmt(y)
                elif k != "CompoundStmt" and y is inner[-1]:
                    stmt_expr(y)
            res.append("end")
        elif k not in STMTS:
            res.append("e")

    def stmt_expr(y):
        res.append("e")
    if f.body is not None:
        stmt(f.body)
    return res


def align(base, cur):
    """names of cur -> names of base (lists of (name, type))"""
    ren = {}
    bn, cn = [b[0] for b in base], [c[0] for c in cur]
    free_b = [b for b in base if b[0] not in cn]
    free_c = [c for c in cur if c[0] not in bn]
    seen_b, seen_c = set(), set()
    fb = [b for b in free_b if not (b[0] in seen_b or seen_b.add(b[0]))]
    fc = [c for c in free_c if not (c[0] in seen_c or seen_c.add(c[0]))]
    used = set()
    for c in fc:
        for i, b in enumerate(fb):
            if i not in used and b[1] == c[1]:
                ren[c[0]] = b[0]
                used.add(i)
                break
    return ren


def describe(prog):
    d = {"fns": {}, "classes": {}}
    for f in prog.flist:
        if f.node.get("isImplicit") or f.node.get("explicitlyDefaulted"):
            continue
        d["fns"][f.key] = {"params": [[p["name"], p["mode"]] for p in f.pmodes], "locals": locals_of(f),
                           "shape": " ".join(shape_of(f)),
                           "type": f.node["type"]["qualType"], "cls": f.cls, "name": f.name}
    for c in prog.classes.values():
        d["classes"][c["name"]] = [[n, str(t)] for (n, t, i, nd) in c["fields"]]
    return d


def apply_baseline(prog, base):
    """renamed functions and fields get their baseline names back"""
    notes = []
    if not base:
        return notes
    for c in prog.classes.values():
        b = base["classes"].get(c["name"])
        if b is None:
            continue
        cur = [(n, str(t)) for (n, t, i, nd) in c["fields"]]
        for k, v in align([tuple(x) for x in b], cur).items():
            prog.fieldname[(c["name"], k)] = v
            notes.append("field %s::%s is %s" % (c["name"], k, v))
    cur = {f.key for f in prog.flist}
    missing = {k: v for k, v in base["fns"].items() if k not in cur}
    # same class and name but another overload suffix, or another name with the same type
    for f in prog.flist:
        if f.key in base["fns"] or f.ctor:
            continue
        cands = [k for k, v in missing.items() if v["cls"] == f.cls and v["type"] == f.node["type"]["qualType"]]
        same = [k for k in cands if missing[k]["name"] == f.name]
        cands = same or cands
        if len(cands) == 1:
            k = cands[0]
            notes.append("function %s is %s" % (f.key, k))
            f.key = k
            f.rname = k.split("::")[-1]
            del missing[k]
    # a former overload set that is no longer one (or the reverse)
    for f in prog.flist:
        if f.key in base["fns"]:
            continue
        cands = [k for k, v in missing.items() if v["cls"] == f.cls and v["name"] == f.name]
        if len(cands) == 1 and not f.ctor:
            k = cands[0]
            notes.append("function %s is %s (type changed)" % (f.key, k))
            f.key, f.rname = k, k.split("::")[-1]
            del missing[k]
    return notes


def module_of(prog, f):
    if f.cls:
        return "m_" + f.cls
    return "m_" + re.sub(r"\W.*$", "", os.path.basename(f.file or "x"))


def translate(repo, contracts, outfile, drop=(), extra_tus=(), ast_text=None, skip=()):
    text = ast_text or cxxast.dump(repo)
    roots = cxxast.load(text)
    cxxast.ALIAS.clear()
    prog = Program(roots)
    bl = os.path.join(contracts, "baseline.json")
    base = json.load(open(bl)) if os.path.exists(bl) else None
    notes = apply_baseline(prog, base)
    fns, mods = parse_contracts(contracts)
    prog.ghosts = {k: re.findall(r"(\w+)\s*:\s*([^,\n]+)", c["ghost"]) for k, c in fns.items() if c.get("ghost")}
    prog.inline = {f.key for f in prog.flist if f.key not in fns and f.body is not None and not f.ctor and f.ret_t is not None
                   and not f.node.get("explicitlyDefaulted") and not f.name.startswith("operator")
                   and not is_trivial_destroy(f) and f.name != "vp_assert" and isinstance(f.ret_t, str)
                   and all(p["mode"] != "bad" for p in f.pmodes)}
    prog.det = {f.key for f in prog.flist if fns.get(f.key, {}).get("deterministic") and pure_function(prog, f)}
    meta = {"functions": {}, "notes": notes, "unattached": [], "missing_contracts": []}
    out = []
    L = out.append
    L("// generated by /verif/extract/translate.py from the C++ sources; do not edit")
    L("#![allow(unused_imports, unused_mut, unused_variables, unused_assignments, dead_code, non_snake_case,")
    L("  non_camel_case_types, unused_parens, non_upper_case_globals, unreachable_code, unused_labels)]")
    L("use vstd::prelude::*;")
    L("verus! { global size_of usize == 8; }")
    libs = [n for n in sorted(os.listdir(contracts)) if n.endswith(".rs") and n[:-3] not in skip]
    by_mod = {}
    for f in prog.flist:
        if f.node.get("explicitlyDefaulted") or f.name == "vp_assert":
            continue
        if is_trivial_destroy(f):
            continue
        by_mod.setdefault(module_of(prog, f), []).append(f)
    for c in prog.classes:
        by_mod.setdefault("m_" + c, [])
    names = [n[:-3] for n in libs] + sorted(by_mod)
    for n in names:
        L("pub use %s::*;" % n)
    libmap = {}
    for n in libs:
        L("pub mod %s { use super::*; use std::sync::Arc;" % n[:-3])
        libmap[n[:-3]] = len(out) + 1
        out.extend(open(os.path.join(contracts, n)).read().rstrip("\n").split("\n"))
        L("}")
    used = set()
    for mod in sorted(by_mod):
        L("pub mod %s { use super::*; use std::sync::Arc; verus! {" % mod)
        cname = mod[2:]
        c = prog.classes.get(cname)
        if c:
            L("pub struct %s {" % cname)
            if c["base"]:
                L("    pub base: %s," % c["base"])
            for (n, t, i, nd) in c["fields"]:
                nm = rname(prog.fieldname.get((cname, n), n))
                L("    pub %s: %s," % (nm, rty(t)))
            L("}")
        if cname in mods:
            out.extend(mods[cname].rstrip("\n").split("\n"))
            used.add("mod " + cname)
        if c:
            L("impl %s {" % cname)
        for f in by_mod[mod]:
            con = fns.get(f.key)
            if con is not None:
                used.add(f.key)
            fm = {"file": f.file, "line": f.line, "endline": f.endline, "module": mod,
                  "contract": con is not None, "status": "translated", "calls": [], "reason": "",
                  "baseline": bool(base and f.key in base["fns"])}
            meta["functions"][f.key] = fm
            ren = {}
            if base and f.key in base["fns"]:
                b = base["fns"][f.key]
                bp = [p[0] for p in b["params"]]
                for p, q in zip(f.pmodes, bp):
                    if p["name"] != q:
                        ren[p["name"]] = q
                lo = [tuple(x) for x in b["locals"]]
                ren2 = align(lo, locals_of(f))
                ren.update({k: v for k, v in ren2.items() if k not in ren})
                # a new local must not capture a baseline name it does not stand for
                for (nm, t) in locals_of(f):
                    if nm not in ren and nm in set(ren.values()):
                        ren[nm] = nm + "_v"
            fm["renamed"] = ren
            fm["shape"] = " ".join(shape_of(f))
            fm["base_shape"] = base["fns"][f.key].get("shape") if base and f.key in base["fns"] else None
            fm["anchored"] = sorted(k for k in (con or {}) if re.match(r"(before|after|\*/before|if|then) ?", k)
                                    and not re.match(r"(before|after) loop", k))
            if con and con.get("trusted"):
                drop = set(drop) | {f.key}
            try:
                em = Emitter(prog, f, con, ren)
                if f.key in drop:
                    sig = em.signature()
                    raise Unsupported("trusted" if con and con.get("trusted") else "rejected by the verifier front end")
                sig, lines = em.emit()
                fm["calls"] = sorted(em.calls)
                fm["notes"] = em.notes
                fm["inlined"] = sorted(em.inlined)
                fm["nloops"] = em.h.count.get(("loop", ""), 0)
                fm["base_nloops"] = max([int(m.group(1)) for m in
                                         (re.match(r"loop (\d+)$", k) for k in (con or {})) if m] or [0])
                un = [k for k in (con or {}) if k not in em.h.used and
                      k not in ("spec", "attr", "trusted", "note", "ghost", "deterministic")]
                if un:
                    meta["unattached"].append([f.key, un])
                    fm["unattached"] = un
                body = lines
            except (Unsupported, ExtractError) as e:
                fm["status"] = "unsupported"
                fm["reason"] = str(e)
                body = None
                try:
                    sig = Emitter(prog, f, None, ren).signature()
                except (Unsupported, ExtractError) as e2:
                    fm["reason"] += "; signature: " + str(e2)
                    fm["status"] = "omitted"
                    continue
            if f.key in prog.det:
                # what every caller may also rely on: the result depends on the arguments only (checked on the AST)
                L("    #[verifier::external_body]")
                L("    " + re.sub(r"^pub fn (\w+)", r"pub fn \1_det", sig))
                out.extend("        " + l for l in con["spec"].rstrip().rstrip(",").split("\n"))
                out.append("        , " + con["deterministic"].strip())
                L("    { unimplemented!() }")
            elif con and con.get("deterministic"):
                fm["undetermined"] = True
            fm["out_start"] = len(out) + 1
            L("    // %s  %s:%s" % (f.key, os.path.basename(f.file or "?"), f.line))
            if body is None or con is None:
                L("    #[verifier::external_body]")
            if con is None and body is not None:
                L("    #[verifier::exec_allows_no_decreases_clause]")
                fm["status"] = "uncontracted"
            if con and con.get("attr"):
                out.extend(con["attr"].rstrip().split("\n"))
            L("    " + sig)
            if con and con.get("spec"):
                out.extend("        " + l for l in con["spec"].rstrip().split("\n"))
            L("    {")
            if body is None:
                L("        unimplemented!()")
            else:
                out.extend(body)
            L("    }")
            fm["out_end"] = len(out)
        if c:
            L("}")
        L("} }")
    L("fn main() {}")
    meta["missing_contracts"] = sorted(k for k in fns if k not in used)
    meta["unused_mods"] = sorted(k for k in mods if ("mod " + k) not in used)
    meta["libs"] = libmap
    with open(outfile, "w") as fo:
        fo.write("\n".join(out) + "\n")
    meta["describe"] = describe(prog)
    return meta


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--contracts", default=os.path.join(cxxast.HERE, "..", "contracts"))
    ap.add_argument("--out", required=True)
    ap.add_argument("--write-baseline", action="store_true")
    a = ap.parse_args()
    m = translate(a.repo, a.contracts, a.out)
    for k, f in m["functions"].items():
        if f["status"] not in ("translated", "uncontracted"):
            print(f["status"], k, f["reason"])
    for x in m["unattached"]:
        print("unattached", x)
    print("missing", m["missing_contracts"], m["unused_mods"], m["notes"])
    if a.write_baseline:
        d = m["describe"]
        json.dump(d, open(os.path.join(a.contracts, "baseline.json"), "w"), indent=0, sort_keys=True)
