"""The frame of const operations: which functions reached from given roots touch state that is neither an argument, nor
their receiver, nor a local variable of theirs, other than by reading it. Works on clang's AST alone, so it also covers
functions that the translator does not render.

State: variables with static storage that are not const (and not thread_local, atomic, mutex, once_flag), members
declared mutable, what a pointer member points to in a const method, and whatever a const_cast makes writable."""
import re

SAFE = re.compile(r"\b(atomic|mutex|shared_mutex|once_flag)\b|atomic_")
FUNS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl")
OPS = {"op_inc": "operator++", "op_dec": "operator--"}


def _inner(n):
    return [y for y in n.get("inner", []) if isinstance(y, dict)]


def _const(q):
    """is an object of this type const? (of a pointer: the pointer itself)"""
    q = re.sub(r"\s*\[[^\]]*\]", "", q.strip())
    if q.endswith("&"):
        return True          # what it is bound to is looked at where it is bound
    if "*" in q:
        return q.rstrip().endswith("const")
    return bool(re.match(r"^const\b", q) or re.search(r"\bconst$", q))


class Frames:
    def __init__(self, roots):
        self.fun, self.prev, self.state, self.vars = {}, {}, {}, set()
        self.name, self.ctors, self.bases = {}, {}, {}
        for r in roots:
            self._scan(r, "")

    def _scan(self, n, path):
        k = n.get("kind")
        if k == "CXXRecordDecl":
            path = path + ("_" if path else "") + n.get("name", "")
        if k in FUNS:
            i = n["id"]
            if "previousDecl" in n:
                self.prev[i] = n["previousDecl"]
            root = self.prev.get(i, i)
            cls = path or self.name.get(root, "").rsplit("::", 1)[0] * ("::" in self.name.get(root, ""))
            self.name.setdefault(root, (cls + "::" if cls else "") + n.get("name", ""))
            if any(y.get("kind") == "CompoundStmt" for y in _inner(n)):
                self.fun[root] = n
            if k == "CXXConstructorDecl":
                self.ctors.setdefault(n.get("name"), set()).add(root)
        if k in ("VarDecl", "ParmVarDecl"):
            self.vars.add(n["id"])
            q = n.get("type", {}).get("qualType", "")
            static = n.get("storageClass") in ("static", "extern") or not self._infun
            if k == "VarDecl" and static and not n.get("tls") and not n.get("constexpr") and not _const(q) and not SAFE.search(q):
                self.state[n["id"]] = "static variable " + n.get("name", "?")
        if k == "FieldDecl" and n.get("mutable") and not SAFE.search(n.get("type", {}).get("qualType", "")):
            self.state[n["id"]] = "mutable member " + n.get("name", "?")
        was = self._infun
        if k in FUNS:
            self._infun = True
        for y in _inner(n):
            self._scan(y, path)
        self._infun = was
    _infun = False

    def root(self, i):
        return self.prev.get(i, i)

    def calls(self, i):
        res, todo = set(), [self.fun[i]]
        while todo:
            n = todo.pop()
            k = n.get("kind")
            if k == "DeclRefExpr":
                r = n.get("referencedDecl", {})
                if r.get("kind") in FUNS:
                    res.add(self.root(r["id"]))
            elif k == "MemberExpr":
                res.add(self.root(n.get("referencedMemberDecl")))
            elif k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                q = re.sub(r"\bconst\b", "", n.get("type", {}).get("qualType", "")).strip()
                res |= self.ctors.get(q.split("::")[-1], set())
            todo += _inner(n)
        return {r for r in res if r in self.fun}

    def reads_only(self, up):
        """is the expression that names the state, with these enclosing expressions (innermost last), only read?"""
        for p in reversed(up):
            k, c = p.get("kind"), p.get("castKind")
            if k == "ImplicitCastExpr" and c == "LValueToRValue":
                return True
            if k == "ImplicitCastExpr" and c == "NoOp" and _const(p.get("type", {}).get("qualType", "")):
                return True
            if k in ("ParenExpr", "ArraySubscriptExpr") or k == "MemberExpr" and not p.get("isArrow") or \
                    k == "ImplicitCastExpr" and c in ("ArrayToPointerDecay", "UncheckedDerivedToBase", "DerivedToBase"):
                continue
            if k == "UnaryExprOrTypeTraitExpr" or c == "ToVoid":
                return True
            return False
        return False

    def stored_through(self, up):
        """is what a pointer (an expression with these enclosing ones) points to assigned?"""
        below = None
        for d, p in enumerate(reversed(up)):
            k, c = p.get("kind"), p.get("castKind")
            if k == "ImplicitCastExpr" and c == "LValueToRValue" and d == 0 or k in ("ParenExpr", "ArraySubscriptExpr") or \
                    k == "UnaryOperator" and p.get("opcode") == "*" or k == "BinaryOperator" and p.get("opcode") in "+-" or \
                    k == "MemberExpr":
                below = p
                continue
            return d > 0 and (k == "CompoundAssignOperator" or k == "BinaryOperator" and p.get("opcode") == "=" or
                              k == "UnaryOperator" and p.get("opcode") in ("++", "--")) and _inner(p)[0] is below
        return False

    def of(self, i):
        """what function i does to state"""
        res = []

        def walk(n, up):
            k = n.get("kind")
            what = None
            if k == "DeclRefExpr":
                r = n.get("referencedDecl", {})
                if r.get("kind") == "VarDecl":
                    what = self.state.get(r["id"])
                    q = r.get("type", {}).get("qualType", "")
                    if r["id"] not in self.vars and not _const(q) and not SAFE.search(q):
                        what = "variable %s of another header" % r.get("name")
            elif k == "MemberExpr":
                what = self.state.get(n.get("referencedMemberDecl"))
                if not what and constm and _inner(n) and _inner(n)[0].get("kind") == "CXXThisExpr" and self.stored_through(up):
                    res.append("what member %s points to is written in a const method (line %s)" % (n.get("name"), n.get("_rline", "?")))
            elif k == "CXXConstCastExpr":
                q = n.get("type", {}).get("qualType", "")
                if not re.match(r"^const\b", q):
                    res.append("const_cast to %s (line %s)" % (q, n.get("_rline", "?")))
            if what and not self.reads_only(up):
                res.append("%s may be written (line %s)" % (what, n.get("_rline", "?")))
            for y in _inner(n):
                walk(y, up + [n])
        f = self.fun[i]
        constm = f.get("type", {}).get("qualType", "").rstrip().endswith("const")
        for y in _inner(f):
            if y.get("kind") in ("CompoundStmt", "CXXCtorInitializer"):
                walk(y, [])
        return res

    def check(self, keys):
        """keys: names like SuRF_Iter::op_inc -> {function: [what]}, names of the functions looked at"""
        want = {(k.rsplit("::", 1)[0] + "::" if "::" in k else "") + OPS.get(k.rsplit("::", 1)[-1], k.rsplit("::", 1)[-1]) for k in keys}
        todo = [i for i in self.fun if self.name[i] in want]
        seen, bad = set(), {}
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            w = self.of(i)
            if w:
                bad.setdefault(self.name[i], []).extend(w)
            todo += self.calls(i)
        return bad, sorted({self.name[i] for i in seen})
