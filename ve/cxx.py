"""C++ front end.

On every run the kernel translation unit of the repository is parsed by clang
(the real preprocessor and semantic analysis; only the pybind11 headers are
replaced by declarations, ve/stubs) and each function of forcepho/src is
translated, statement by statement, into a Python `ast` that ve/pyint executes.

What the translation drops: the width of numbers (float/double/int* become
mathematical reals and integers; casts between them are the identity, except
float->int which truncates), destructors, alignment of allocations, and object
addresses (a pointer is a (base, offset) pair; an integer cast to a pointer is
the object the caller passed).  Every array access is an in-bounds obligation.
Anything not understood raises Unsupported and nothing is decided from it."""
import ast
import json
import os
import re
import subprocess
import z3
from . import terms as T
from .terms import Unsupported, is_z3, conc_of, arith, cmp, land
from .state import Nd, Rec, Seq, Obj, Env, Poison, Buf, mk_nd, TR
from . import npmodel as N
from .pyint import Mod, Func

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")
MATH = {"exp": "exp", "expf": "exp", "sqrt": "sqrt", "sqrtf": "sqrt", "cos": "cos", "cosf": "cos", "sin": "sin",
        "sinf": "sin", "log": "log", "logf": "log", "fabs": "abs", "fabsf": "abs", "abs": "abs"}


def dump(repo):
    src = os.path.join(repo, "forcepho", "src", "compute_gaussians_kernel.cc")
    r = subprocess.run(["clang++", "-std=c++14", "-I", STUBS, "-fsyntax-only", "-Xclang", "-ast-dump=json", src],
                       capture_output=True, timeout=120)
    if not r.stdout or (r.returncode != 0):
        raise Unsupported("clang: " + r.stderr.decode()[:300])
    return json.loads(r.stdout)


def qt(t):
    if t is None:
        return ""
    q = t.get("desugaredQualType") or t.get("qualType", "")
    return q


def strip(q):
    q = q.strip()
    while True:
        q0 = q
        for w in ("const ", "class ", "struct ", "volatile "):
            if q.startswith(w):
                q = q[len(w):]
        for w in (" const", "const", " __restrict"):
            if q.endswith(w) and not q.endswith("_const"):
                q = q[:-len(w)].strip()
        if q == q0:
            return q


def is_ptr(q):
    return strip(q).endswith("*")


def is_ref(q):
    return strip(q).endswith("&")


def is_arr(q):
    return strip(q).endswith("]")


def pointee(q):
    q = strip(q)
    if q.endswith("*") or q.endswith("&"):
        return strip(q.rstrip("&") if q.endswith("&") else q[:-1])
    m = re.match(r"(.*?)\s*\[(\d*)\](.*)$", q)
    if m:
        return strip(m.group(1) + m.group(3))
    raise Unsupported(f"pointee of {q}")


def arr_len(q):
    m = re.match(r".*?\[(\d+)\]", strip(q))
    if not m:
        raise Unsupported(f"array type {q}")
    return int(m.group(1))


class TU:
    def __init__(self, repo):
        self.repo = repo
        self.dir = os.path.realpath(os.path.join(repo, "forcepho", "src"))
        tree = dump(repo)
        self._f = self._l = None
        self.recs, self.funcs, self.names, self.bytype = {}, {}, {}, {}
        self.recid = {}
        tops = []
        for d in tree["inner"]:
            self.locate(d)
            f = d.get("_file")
            if f and os.path.realpath(f).startswith(self.dir):
                tops.append(d)
        for d in tops:
            if d["kind"] in ("CXXRecordDecl", "RecordDecl") and d.get("completeDefinition"):
                self.recid[d["id"]] = d
                if d.get("name"):
                    self.recs[d["name"]] = d
            elif d["kind"] == "TypedefDecl":
                s = json.dumps(d.get("inner", []))
                for i, r in self.recid.items():
                    if not r.get("name") and f'"{i}"' in s:
                        r["name"] = d["name"]
                        self.recs[d["name"]] = r
        used = set()

        def fresh(nm):
            k, n = nm, 1
            while k in used:
                n += 1
                k = f"{nm}__{n}"
            used.add(k)
            return k
        for d in tops:
            if d["kind"] == "FunctionDecl" and any(x["kind"] == "CompoundStmt" for x in d.get("inner", [])):
                nm = re.sub(r"\W+", "_", {"operator*": "op_mul", "operator+": "op_add", "operator-": "op_sub"}.get(d["name"], d["name"]))
                k = fresh(nm)
                self.funcs[k] = (d, None)
                self.bytype[(d["name"], d["type"]["qualType"])] = k
        self.methods = {}
        for rn, r in self.recs.items():
            for d in r.get("inner", []):
                if d["kind"] in ("CXXMethodDecl", "CXXConstructorDecl") and not d.get("isImplicit") and any(x["kind"] == "CompoundStmt" for x in d.get("inner", [])):
                    base = rn + "_" + ("ctor" if d["kind"] == "CXXConstructorDecl" else re.sub(r"\W+", "_", d["name"]).strip("_") or "op")
                    k = fresh(base)
                    self.funcs[k] = (d, rn)
                    self.methods[d["id"]] = k
                    if d["kind"] == "CXXConstructorDecl":
                        self.bytype[(rn, d["type"]["qualType"])] = k

    def locate(self, d, top=True):
        """file/line of each node (clang omits repeated values)"""
        def pos(p):
            if not p:
                return
            for q in (p.get("spellingLoc"), p.get("expansionLoc")):
                if q:
                    pos(q)
            if "file" in p:
                self._f = p["file"]
            if "line" in p:
                self._l = p["line"]
        pos(d.get("loc"))
        d["_file"], d["_line"] = self._f, self._l
        r = d.get("range") or {}
        pos(r.get("begin"))
        d["_line"] = self._l if not d.get("loc") else d["_line"]
        d["_bline"] = self._l
        pos(r.get("end"))
        d["_eline"] = self._l
        if top and not (self._f and os.path.realpath(self._f).startswith(self.dir)):
            # still must walk for the delta encoding
            pass
        for x in d.get("inner", []) or []:
            if isinstance(x, dict) and x:
                self.locate(x, False)

    def fields(self, rn):
        return [(d["name"], qt(d["type"]), d) for d in self.recs[rn].get("inner", []) if d["kind"] == "FieldDecl"]

    def is_struct(self, q):
        return strip(q) in self.recs


def C(v):
    return ast.Constant(v)


def nm(k):
    return ast.Name(k, ast.Load())


def call(f, *a):
    return ast.Call(nm(f) if isinstance(f, str) else f, list(a), [])


def add(a, b):
    if isinstance(a, ast.Constant) and a.value == 0:
        return b
    if isinstance(b, ast.Constant) and b.value == 0:
        return a
    return ast.BinOp(a, ast.Add(), b)


class Fn:
    """translation of one function body"""
    BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "%": ast.Mod}
    CMP = {"<": ast.Lt, ">": ast.Gt, "<=": ast.LtE, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq}

    def __init__(self, tu, key, decl, rec):
        self.tu, self.key, self.d, self.rec = tu, key, decl, rec
        self.vars = {}
        self.used = set()
        self.out = []
        self.tmp = 0

    # ---- names
    def declare(self, d):
        k0 = d.get("name") or f"_anon{len(self.vars)}"
        k, n = k0, 1
        while k in self.used:
            n += 1
            k = f"{k0}_{n}"
        self.used.add(k)
        self.vars[d["id"]] = (k, qt(d["type"]))
        return k

    def pair_type(self, q):
        """pointer-like values: pointers, arrays, struct lvalues"""
        q = strip(q)
        if is_ptr(q) or is_arr(q):
            return True
        if is_ref(q):
            return self.pair_type(pointee(q)) or self.tu.is_struct(pointee(q))
        return self.tu.is_struct(q)

    def fresh(self):
        self.tmp += 1
        return f"_t{self.tmp}"

    def emit(self, s):
        self.out.append(s)

    def assign(self, k, v):
        self.emit(ast.Assign([ast.Name(k, ast.Store())], v))

    def translate(self):
        d = self.d
        args = []
        if self.rec is not None:
            args += ["this", "this__o"]
        for p in d.get("inner", []):
            if p["kind"] == "ParmVarDecl":
                k = self.declare(p)
                args.append(k)
                q = qt(p["type"])
                if self.pair_type(q):
                    args.append(k + "__o")
                elif is_ref(q) and not strip(pointee(q)) == "" and not self.const_ref(p):
                    raise Unsupported(f"reference to scalar in {d['name']}")
        body = [x for x in d["inner"] if x["kind"] == "CompoundStmt"][0]
        if d["kind"] == "CXXConstructorDecl":
            for x in d["inner"]:
                if x["kind"] == "CXXCtorInitializer":
                    f = x.get("anyInit", {}).get("name")
                    v = self.value(x["inner"][0])
                    self.emit(ast.Expr(call("__fset__", nm("this"), nm("this__o"), C(f), v)))
        self.stmt(body)
        b = self.out or [ast.Pass()]
        f = ast.FunctionDef(name=self.key, args=ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in args], kwonlyargs=[],
                            kw_defaults=[], defaults=[]), body=b, decorator_list=[], type_params=[])
        f.lineno = d.get("_bline") or 0
        f.end_lineno = d.get("_eline") or 0
        ast.fix_missing_locations(f)
        return f

    def const_ref(self, p):
        return strip(p["type"]["qualType"]).startswith("const") or p["type"]["qualType"].startswith("const")

    # ---- statements
    def block(self, s):
        saved, self.out = self.out, []
        self.stmt(s)
        b, self.out = self.out, saved
        return b or [ast.Pass()]

    def stmt(self, s):
        k = s["kind"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            n0 = len(self.out)
            m(s)
            for x in self.out[n0:]:
                if not hasattr(x, "lineno"):
                    x.lineno = s.get("_line") or 0
                    x.end_lineno = x.lineno
                    x.col_offset = x.end_col_offset = 0
            return
        self.effect(s)

    def s_CompoundStmt(self, s):
        for x in s.get("inner", []):
            self.stmt(x)

    def s_NullStmt(self, s):
        pass

    def s_DeclStmt(self, s):
        for d in s["inner"]:
            if d["kind"] in ("TypedefDecl", "UsingDecl"):
                continue
            if d["kind"] != "VarDecl":
                raise Unsupported(d["kind"])
            if d.get("storageClass") == "static" or d.get("tls"):
                raise Unsupported("static local variable")
            k = self.declare(d)
            q = qt(d["type"])
            init = d.get("inner", [None])[-1] if d.get("init") else None
            if self.tu.is_struct(q):
                if init is None:
                    self.assign(k, call("__new__", C(strip(q))))
                else:
                    self.assign(k, self.struct_value(init))
                self.assign(k + "__o", C(0))
            elif is_arr(q):
                n, el = arr_len(q), pointee(q)
                self.assign(k, call("__array__", C(el), C(n)))
                self.assign(k + "__o", C(0))
                if init is not None:
                    if init["kind"] != "InitListExpr":
                        raise Unsupported("array initialiser")
                    xs = list(init.get("inner", []))
                    if not xs and init.get("array_filler"):
                        xs = []
                    for j in range(n):
                        if j < len(xs):
                            v = self.value(xs[j])
                        else:
                            v = C(0)
                        self.emit(ast.Expr(call("__st__", nm(k), C(j), v)))
            elif is_ptr(q):
                if init is None:
                    self.assign(k, call("__uninit__", C(k)))
                    self.assign(k + "__o", C(0))
                else:
                    b, o = self.pair(init)
                    self.assign(k, b)
                    self.assign(k + "__o", o)
            elif is_ref(q):
                if self.pair_type(q):
                    b, o = self.pair(init)
                    self.assign(k, b)
                    self.assign(k + "__o", o)
                elif self.const_ref(d):
                    self.assign(k, self.value(init))
                else:
                    raise Unsupported("reference to scalar")
            elif init is None:
                if strip(q) in SCALARS:
                    self.assign(k, call("__uninit__", C(k)))
                else:
                    raise Unsupported(f"declaration of {q}")
            else:
                self.assign(k, self.value(init))

    def s_ReturnStmt(self, s):
        x = s.get("inner", [])
        if not x:
            self.emit(ast.Return(None))
            return
        q = qt(x[0].get("type"))
        if self.tu.is_struct(q):
            v = self.struct_value(x[0])
        elif is_ref(qt({"qualType": self.d["type"]["qualType"].split("(")[0].strip()})):
            self.effect(x[0])
            v = C(None)
        elif is_ptr(q):
            raise Unsupported("pointer returned")
        else:
            v = self.value(x[0])
        self.emit(ast.Return(v))

    def s_IfStmt(self, s):
        xs = s["inner"]
        if s.get("hasInit") or s.get("hasVar"):
            raise Unsupported("if with declaration")
        c = self.cond(xs[0])
        a = self.block(xs[1])
        b = self.block(xs[2]) if len(xs) > 2 else []
        self.emit(ast.If(c, a, b))

    def s_BreakStmt(self, s):
        self.emit(ast.Break())

    def s_ContinueStmt(self, s):
        self.emit(ast.Continue())

    def s_WhileStmt(self, s):
        n0 = len(self.out)
        c = self.cond(s["inner"][0])
        if len(self.out) != n0:
            raise Unsupported("side effect in loop condition")
        self.emit(ast.While(c, self.block(s["inner"][-1]), []))

    def assigned(self, s, acc=None):
        """decl ids of variables the statement may modify"""
        acc = set() if acc is None else acc
        k = s.get("kind")
        if k in ("CompoundAssignOperator",) or (k == "BinaryOperator" and s.get("opcode") == "=") or \
                (k == "UnaryOperator" and s.get("opcode") in ("++", "--", "&")):
            t = s["inner"][0]
            while t.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
                t = t["inner"][0]
            if t.get("kind") == "DeclRefExpr":
                acc.add(t["referencedDecl"]["id"])
        for x in s.get("inner", []) or []:
            if isinstance(x, dict) and x:
                self.assigned(x, acc)
        return acc

    def refs(self, s, acc=None):
        acc = set() if acc is None else acc
        if s.get("kind") == "DeclRefExpr":
            acc.add(s["referencedDecl"]["id"])
        for x in s.get("inner", []) or []:
            if isinstance(x, dict) and x:
                self.refs(x, acc)
        return acc

    def has(self, s, kinds):
        if s.get("kind") in kinds:
            return True
        return any(isinstance(x, dict) and x and self.has(x, kinds) for x in s.get("inner", []) or [])

    def steps(self, e):
        """increment expression -> [(decl id, step)]"""
        k = e["kind"]
        if k == "BinaryOperator" and e["opcode"] == ",":
            return self.steps(e["inner"][0]) + self.steps(e["inner"][1])
        if k in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups"):
            return self.steps(e["inner"][0])
        if k == "UnaryOperator" and e["opcode"] in ("++", "--"):
            t = e["inner"][0]
            if t["kind"] == "DeclRefExpr":
                return [(t["referencedDecl"]["id"], C(1 if e["opcode"] == "++" else -1), set())]
        if k == "CompoundAssignOperator" and e["opcode"] in ("+=", "-="):
            t = e["inner"][0]
            if t["kind"] == "DeclRefExpr":
                v = self.value(e["inner"][1])
                return [(t["referencedDecl"]["id"], v if e["opcode"] == "+=" else ast.UnaryOp(ast.USub(), v), self.refs(e["inner"][1]))]
        raise Unsupported("loop increment")

    def s_ForStmt(self, s):
        init, _, cnd, inc, body = s["inner"]
        if init:
            self.stmt(init)
        if not cnd or not inc:
            raise Unsupported("for without condition or increment")
        st = self.steps(inc)
        mod = self.assigned(body)
        c = cnd
        while c["kind"] in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups"):
            c = c["inner"][0]
        if c["kind"] != "BinaryOperator" or c["opcode"] not in ("<", "<=", ">", ">=", "!="):
            raise Unsupported("for condition")
        a, b = c["inner"]
        op = c["opcode"]

        def var_of(x):
            while x["kind"] in ("ParenExpr", "ImplicitCastExpr"):
                x = x["inner"][0]
            return x["referencedDecl"]["id"] if x["kind"] == "DeclRefExpr" else None
        ids = {i: (stp, rf) for i, stp, rf in st}
        va, vb = var_of(a), var_of(b)
        if va in ids and vb not in ids:
            v, bound = va, b
        elif vb in ids and va not in ids:
            v, bound = vb, a
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
        else:
            raise Unsupported("for condition")
        step = ids[v][0]
        if not (isinstance(step, ast.Constant) and step.value in (1, -1)):
            raise Unsupported("for step")
        if any(i in mod for i in ids) or self.refs(bound) & (mod | set(ids)) or any(rf & (mod | set(ids)) for _, rf in ids.values()):
            raise Unsupported("loop variable or bound modified in the body")
        if self.has(bound, ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr")):
            raise Unsupported("call in loop bound")
        bd = self.value(bound)
        k, q = self.vars[v]
        if is_ptr(q):
            raise Unsupported("pointer loop bound")
        lo, hi = self.fresh(), self.fresh()
        self.assign(lo, nm(k))
        if step.value == 1:
            if op == "<=":
                bd = add(bd, C(1))
            elif op == "!=":
                pass
            elif op != "<":
                raise Unsupported("for direction")
            self.assign(hi, bd)
            if op == "!=":
                self.emit(ast.Expr(call("__require__", ast.Compare(nm(lo), [ast.LtE()], [nm(hi)]))))
            rng = call("__range__", nm(lo), nm(hi))
            cnt = call("max", ast.BinOp(nm(hi), ast.Sub(), nm(lo)), C(0))
            done = lambda x: ast.BinOp(x, ast.Sub(), nm(lo))
        else:
            if op == ">=":
                bd = ast.BinOp(bd, ast.Sub(), C(1))
            elif op != ">":
                raise Unsupported("for direction")
            self.assign(hi, bd)
            # iteration order reversed: n = lo - hi iterations, variable lo - t
            t = self.fresh()
            rng = call("__range__", C(0), call("max", ast.BinOp(nm(lo), ast.Sub(), nm(hi)), C(0)))
            cnt = call("max", ast.BinOp(nm(lo), ast.Sub(), nm(hi)), C(0))
        extra = [(i, stp) for i, (stp, _) in ids.items() if i != v]
        saves = []
        for i, stp in extra:
            kk, qq = self.vars[i]
            kk = kk + "__o" if is_ptr(qq) else kk
            s0 = self.fresh()
            self.assign(s0, nm(kk))
            saves.append((kk, s0, stp))
        leak = init is None or init == {} or init.get("kind") != "DeclStmt"
        saved, self.out = self.out, []
        if step.value == 1:
            cntv = done(nm(k))
            tgt = k
        else:
            self.assign(k, ast.BinOp(nm(lo), ast.Sub(), nm(t)))
            cntv = nm(t)
            tgt = t
        for kk, s0, stp in saves:
            self.assign(kk, ast.BinOp(nm(s0), ast.Add(), ast.BinOp(cntv, ast.Mult(), stp)))
        self.stmt(body)
        b, self.out = self.out, saved
        f = ast.For(ast.Name(tgt, ast.Store()), rng, b or [ast.Pass()], [])
        self.emit(f)
        if self.has(body, ("BreakStmt",)):
            for kk, s0, stp in saves:
                raise Unsupported("break with several loop variables")
            if leak:
                raise Unsupported("break with outer loop variable")
            return
        for kk, s0, stp in saves:
            self.assign(kk, ast.BinOp(nm(s0), ast.Add(), ast.BinOp(cnt, ast.Mult(), stp)))
        if leak:
            self.assign(k, ast.BinOp(nm(lo), ast.Add() if step.value == 1 else ast.Sub(), cnt))

    # ---- expressions
    def cond(self, e):
        return self.value(e)

    def skip(self, e):
        while e["kind"] in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr",
                            "SubstNonTypeTemplateParmExpr") or \
                (e["kind"] in ("ImplicitCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr")
                 and e.get("castKind") in ("NoOp", "LValueToRValue", "ArrayToPointerDecay", "BitCast", "IntegralToPointer",
                                           "FunctionToPointerDecay", "ConstructorConversion", "LValueBitCast",
                                           "UncheckedDerivedToBase")):
            e = e["inner"][-1]
        return e

    def pair(self, e):
        """(base, offset) of a pointer value, array or struct lvalue"""
        e = self.skip(e)
        k = e["kind"]
        if k == "DeclRefExpr":
            d = e["referencedDecl"]
            if d["id"] not in self.vars:
                raise Unsupported(f"global {d.get('name')}")
            v, q = self.vars[d["id"]]
            if not self.pair_type(q):
                return nm(v), C(0)           # integer used as an address, or a library object
            return nm(v), nm(v + "__o")
        if k == "CXXThisExpr":
            return nm("this"), nm("this__o")
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or \
                (k in ("ImplicitCastExpr", "CStyleCastExpr") and e.get("castKind") == "NullToPointer"):
            return C(None), C(0)
        if k == "BinaryOperator" and e["opcode"] in ("+", "-"):
            a, b = e["inner"]
            if is_ptr(qt(a["type"])) or is_arr(qt(a["type"])):
                bs, o = self.pair(a)
                i = self.value(b)
                return bs, (add(o, i) if e["opcode"] == "+" else ast.BinOp(o, ast.Sub(), i))
            if e["opcode"] == "+":
                bs, o = self.pair(b)
                return bs, add(o, self.value(a))
        if k == "UnaryOperator" and e["opcode"] == "*":
            return self.pair(e["inner"][0])
        if k == "UnaryOperator" and e["opcode"] == "&":
            x = self.skip(e["inner"][0])
            if x["kind"] == "ArraySubscriptExpr":
                b, o = self.pair(x["inner"][0])
                return b, add(o, self.value(x["inner"][1]))
            if self.tu.is_struct(qt(x["type"])):
                return self.pair(x)
            raise Unsupported("address of a scalar")
        if k == "UnaryOperator" and e["opcode"] in ("++", "--"):
            x = self.skip(e["inner"][0])
            b, o = self.pair(x)
            if not isinstance(o, ast.Name):
                raise Unsupported("pointer increment")
            one = ast.Add() if e["opcode"] == "++" else ast.Sub()
            if e.get("isPostfix"):
                t = self.fresh()
                self.assign(t, o)
                self.assign(o.id, ast.BinOp(nm(o.id), one, C(1)))
                return b, nm(t)
            self.assign(o.id, ast.BinOp(nm(o.id), one, C(1)))
            return b, o
        if k == "ArraySubscriptExpr":
            b, o = self.pair(e["inner"][0])
            o = add(o, self.value(e["inner"][1]))
            if is_arr(qt(e["type"])):
                return call("__row__", b, o), C(0)
            return b, o
        if k == "MemberExpr":
            b, o = self.pair(e["inner"][0])
            return call("__fld__", b, o, C(e["name"])), C(0)
        if k == "ConditionalOperator":
            raise Unsupported("conditional pointer")
        if self.tu.is_struct(qt(e.get("type"))):
            return self.struct_value(e), C(0)
        if is_ptr(qt(e.get("type"))) or k in ("CXXMemberCallExpr", "CallExpr"):
            return self.value(e), C(0)
        raise Unsupported(f"pointer expression {k}")

    def struct_value(self, e):
        """a fresh object holding the value of a struct expression"""
        e = self.skip(e)
        k = e["kind"]
        q = strip(qt(e.get("type")))
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            ct = e.get("ctorType", {}).get("qualType", "")
            args = e.get("inner", [])
            if q not in self.tu.recs:
                return call("__extnew__", C(q), *[self.value(a) for a in args])
            key = self.tu.bytype.get((q, ct))
            if key is None:
                if not args:
                    return call("__new__", C(q))
                if len(args) == 1 and strip(qt(self.skip(args[0])["type"])) == q:
                    a = self.skip(args[0])
                    if a["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                        return self.struct_value(a)
                    b, o = self.pair(a)
                    return call("__copy__", b, o, C(q))
                raise Unsupported(f"constructor {q} {ct}")
            t = self.fresh()
            self.assign(t, call("__new__", C(q)))
            self.emit(ast.Expr(call(key, nm(t), C(0), *self.args(self.tu.funcs[key][0], args))))
            return nm(t)
        if k == "InitListExpr":
            t = self.fresh()
            self.assign(t, call("__new__", C(q)))
            xs = e.get("inner", [])
            for (f, fq, _), x in zip(self.tu.fields(q), xs):
                if x["kind"] == "ImplicitValueInitExpr":
                    v = C(0)
                else:
                    v = self.value(x)
                self.emit(ast.Expr(call("__fset__", nm(t), C(0), C(f), v)))
            return nm(t)
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            r = self.callexpr(e)
            if r[0] == "value":
                return r[1]
            return call("__copy__", r[1], r[2], C(q))
        if k == "ConditionalOperator":
            raise Unsupported("conditional struct")
        b, o = self.pair(e)
        return call("__copy__", b, o, C(q))

    def args(self, decl, xs):
        out = []
        ps = [p for p in decl.get("inner", []) if p["kind"] == "ParmVarDecl"]
        if len(xs) > len(ps):
            raise Unsupported("variadic call")
        for p, x in zip(ps, xs):
            q = qt(p["type"])
            if x["kind"] == "CXXDefaultArgExpr":
                raise Unsupported("default argument")
            if self.tu.is_struct(q):
                out += [self.struct_value(x), C(0)]
            elif self.pair_type(q):
                b, o = self.pair(x)
                out += [b, o]
            else:
                out.append(self.value(x))
        if len(xs) < len(ps):
            raise Unsupported("default argument")
        return out

    def callexpr(self, e):
        """('value', expr) | ('pair', base, off)"""
        k = e["kind"]
        xs = e["inner"]
        cal = self.skip(xs[0])
        rest = xs[1:]
        if k == "CXXOperatorCallExpr":
            d = cal["referencedDecl"]
            if d["kind"] == "CXXMethodDecl":
                key = self.tu.methods.get(d["id"])
                b, o = self.pair(rest[0])
                if key is None:
                    if d["name"] == "operator=":
                        v = self.struct_value(rest[1])
                        self.emit(ast.Expr(call("__into__", b, o, v)))
                        return ("pair", b, o)
                    raise Unsupported(f"operator {d['name']}")
                self.emit(ast.Expr(call(key, b, o, *self.args(self.tu.funcs[key][0], rest[1:]))))
                return ("pair", b, o)
            return self.free_call(d, rest, e)
        if k == "CXXMemberCallExpr":
            if cal["kind"] != "MemberExpr":
                raise Unsupported("member call")
            key = self.tu.methods.get(cal.get("referencedMemberDecl"))
            b, o = self.pair(cal["inner"][0])
            if key is None:
                return ("value", call("__extcall__", b, C(cal["name"]), *[self.value(x) for x in rest]))
            f = call(key, b, o, *self.args(self.tu.funcs[key][0], rest))
            if is_ref(self.ret(self.tu.funcs[key][0])):
                self.emit(ast.Expr(f))
                return ("pair", b, o)
            return ("value", f)
        if cal["kind"] != "DeclRefExpr":
            raise Unsupported("indirect call")
        return self.free_call(cal["referencedDecl"], rest, e)

    def ret(self, d):
        return d["type"]["qualType"].split("(")[0].strip()

    def free_call(self, d, xs, e):
        key = self.tu.bytype.get((d["name"], d["type"]["qualType"]))
        if key is None:
            n = d["name"]
            if n in MATH:
                return ("value", call("__m_" + MATH[n], *[self.value(x) for x in xs]))
            if n in ("fmaxf", "fmax", "max"):
                return ("value", call("max", *[self.value(x) for x in xs]))
            if n in ("fminf", "fmin", "min"):
                return ("value", call("min", *[self.value(x) for x in xs]))
            if n == "free":
                b, o = self.pair(xs[0])
                if isinstance(b, ast.Name):
                    self.assign(b.id, call("__freed__", C(b.id)))
                return ("value", C(None))
            if n == "posix_memalign":
                t = self.skip(xs[0])
                if t["kind"] == "UnaryOperator" and t["opcode"] == "&":
                    t = self.skip(t["inner"][0])
                if t["kind"] != "DeclRefExpr":
                    raise Unsupported("posix_memalign target")
                v, q = self.vars[t["referencedDecl"]["id"]]
                self.assign(v, self.alloc(xs[2], pointee(q)))
                self.assign(v + "__o", C(0))
                return ("value", C(0))
            if n in ("malloc", "calloc", "aligned_alloc"):
                sz = xs[-1]
                ty = None
                raise Unsupported("malloc")
            if n in ("printf", "fprintf"):
                return ("value", C(0))
            raise Unsupported(f"call of {n}")
        f = call(key, *self.args(self.tu.funcs[key][0], xs))
        if is_ref(self.ret(self.tu.funcs[key][0])):
            raise Unsupported("reference returned")
        return ("value", f)

    def alloc(self, e, el):
        e = self.skip(e)
        while e["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            e = e["inner"][0]
        if e["kind"] == "BinaryOperator" and e["opcode"] == "*":
            for a, b in (e["inner"], e["inner"][::-1]):
                x = a
                while x["kind"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr"):
                    x = x["inner"][0]
                if x["kind"] == "UnaryExprOrTypeTraitExpr" and x.get("name") == "sizeof" and \
                        strip(qt(x.get("argType") or {}) or qt(x["inner"][0]["type"]) if x.get("inner") else qt(x.get("argType"))) == el:
                    return call("__array__", C(el), self.value(b))
        raise Unsupported("allocation size")

    def effect(self, e):
        """expression statement"""
        e = self.skip(e)
        k = e["kind"]
        if k == "BinaryOperator" and e["opcode"] == ",":
            self.effect(e["inner"][0])
            self.effect(e["inner"][1])
            return
        if k == "BinaryOperator" and e["opcode"] == "=":
            self.store(e["inner"][0], e["inner"][1])
            return
        if k == "CompoundAssignOperator":
            self.store_op(e)
            return
        if k == "UnaryOperator" and e["opcode"] in ("++", "--"):
            x = self.skip(e["inner"][0])
            if is_ptr(qt(x["type"])):
                self.pair(e)
                return
            self.put(x, ast.BinOp(self.value(x), ast.Add() if e["opcode"] == "++" else ast.Sub(), C(1)))
            return
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            r = self.callexpr(e)
            if r[0] == "value":
                self.emit(ast.Expr(r[1]))
            return
        if k in ("CStyleCastExpr", "ImplicitCastExpr") and e.get("castKind") == "ToVoid":
            return
        if k in ("DeclRefExpr", "IntegerLiteral"):
            return
        raise Unsupported(f"statement {k}")

    def store(self, lhs, rhs):
        x = self.skip(lhs)
        if is_ptr(qt(x["type"])):
            if x["kind"] != "DeclRefExpr":
                raise Unsupported("store of a pointer")
            b, o = self.pair(rhs)
            v, q = self.vars[x["referencedDecl"]["id"]]
            t = self.fresh()
            self.assign(t, o)
            self.assign(v, b)
            self.assign(v + "__o", nm(t))
            return
        if self.tu.is_struct(qt(x["type"])):
            v = self.struct_value(rhs)
            b, o = self.pair(x)
            self.emit(ast.Expr(call("__into__", b, o, v)))
            return
        r = self.skip(rhs)
        while r["kind"] == "ImplicitCastExpr":
            r = self.skip(r["inner"][0])
        if r["kind"] == "BinaryOperator" and r["opcode"] == "=":
            self.store(r["inner"][0], r["inner"][1])
            v = self.value(r["inner"][0])
        else:
            v = self.value(rhs)
        self.put(x, v)

    def put(self, x, v):
        x = self.skip(x)
        k = x["kind"]
        if k == "DeclRefExpr":
            d = x["referencedDecl"]
            if d["id"] not in self.vars:
                raise Unsupported("global store")
            n, q = self.vars[d["id"]]
            self.assign(n, v)
        elif k == "MemberExpr":
            b, o = self.pair(x["inner"][0])
            self.emit(ast.Expr(call("__fset__", b, o, C(x["name"]), v)))
        elif k == "ArraySubscriptExpr":
            b, o = self.pair(x["inner"][0])
            self.emit(ast.Expr(call("__st__", b, add(o, self.value(x["inner"][1])), v)))
        elif k == "UnaryOperator" and x["opcode"] == "*":
            b, o = self.pair(x["inner"][0])
            self.emit(ast.Expr(call("__st__", b, o, v)))
        else:
            raise Unsupported(f"store to {k}")

    def store_op(self, e):
        x = self.skip(e["inner"][0])
        op = e["opcode"][:-1]
        if is_ptr(qt(x["type"])):
            b, o = self.pair(x)
            if not isinstance(o, ast.Name) or op not in "+-":
                raise Unsupported("pointer arithmetic")
            self.assign(o.id, ast.BinOp(nm(o.id), self.BIN[op](), self.value(e["inner"][1])))
            return
        r = self.value(e["inner"][1])
        self.put(x, self.arith(op, self.value(x), r, qt(e.get("computeResultType") or e["type"])))

    def arith(self, op, a, b, q):
        if op not in self.BIN:
            raise Unsupported(f"operator {op}")
        if op in "/%" and strip(q) in INTS:
            return call("__cdiv__" if op == "/" else "__cmod__", a, b)
        return ast.BinOp(a, self.BIN[op](), b)

    def value(self, e):
        k = e["kind"]
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr"):
            ck = e.get("castKind")
            if ck == "FloatingToIntegral":
                return call("__trunc__", self.value(e["inner"][-1]))
            if ck in ("FloatingCast", "IntegralCast", "IntegralToFloating", "LValueToRValue", "NoOp", "ConstructorConversion",
                      "BitCast", "ArrayToPointerDecay"):
                return self.value(e["inner"][-1])
            if ck in ("IntegralToBoolean", "FloatingToBoolean"):
                return ast.Compare(self.value(e["inner"][-1]), [ast.NotEq()], [C(0)])
            if ck == "PointerToBoolean":
                b, o = self.pair(e["inner"][-1])
                return ast.Compare(b, [ast.IsNot()], [C(None)])
            if ck in ("NullToPointer",):
                return C(None)
            raise Unsupported(f"cast {ck}")
        e = self.skip(e)
        k = e["kind"]
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr"):
            return self.value(e)
        if k == "IntegerLiteral":
            return C(int(e["value"]))
        if k == "FloatingLiteral":
            return call("__flt__", C(e["value"]), C(strip(qt(e["type"]))))
        if k == "CXXBoolLiteralExpr":
            return C(bool(e["value"]))
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return C(None)
        if k == "DeclRefExpr":
            d = e["referencedDecl"]
            if d["id"] not in self.vars:
                raise Unsupported(f"global {d.get('name')}")
            return nm(self.vars[d["id"]][0])
        if self.tu.is_struct(qt(e.get("type"))):
            return self.struct_value(e)
        if k == "BinaryOperator":
            op = e["opcode"]
            a, b = e["inner"]
            if op in ("&&", "||"):
                n0 = len(self.out)
                x, y = self.value(a), self.value(b)
                if len(self.out) != n0:
                    raise Unsupported("side effect in a condition")
                return ast.BoolOp(ast.And() if op == "&&" else ast.Or(), [x, y])
            if op == "=":
                self.store(a, b)
                return self.value(a)
            if op == ",":
                self.effect(a)
                return self.value(b)
            if op in self.CMP:
                if is_ptr(qt(a["type"])) or is_ptr(qt(b["type"])):
                    p, po = self.pair(a)
                    r, ro = self.pair(b)
                    if op in ("==", "!=") and (self.null(p) or self.null(r)):
                        return ast.Compare(r if self.null(p) else p, [ast.Is() if op == "==" else ast.IsNot()], [C(None)])
                    raise Unsupported("pointer comparison")
                return ast.Compare(self.value(a), [self.CMP[op]()], [self.value(b)])
            if is_ptr(qt(e["type"])):
                raise Unsupported("pointer value")
            x = self.value(a)
            y = self.value(b)
            return self.arith(op, x, y, qt(e["type"]))
        if k == "UnaryOperator":
            op = e["opcode"]
            if op == "-":
                return ast.UnaryOp(ast.USub(), self.value(e["inner"][0]))
            if op == "+":
                return self.value(e["inner"][0])
            if op == "!":
                return ast.UnaryOp(ast.Not(), self.value(e["inner"][0]))
            if op == "*":
                b, o = self.pair(e["inner"][0])
                return call("__ld__", b, o)
            if op in ("++", "--"):
                x = e["inner"][0]
                if e.get("isPostfix"):
                    t = self.fresh()
                    self.assign(t, self.value(x))
                    self.put(x, ast.BinOp(nm(t), ast.Add() if op == "++" else ast.Sub(), C(1)))
                    return nm(t)
                self.effect(e)
                return self.value(x)
            raise Unsupported(f"unary {op}")
        if k == "CompoundAssignOperator":
            self.store_op(e)
            return self.value(e["inner"][0])
        if k == "ArraySubscriptExpr":
            b, o = self.pair(e["inner"][0])
            return call("__ld__", b, add(o, self.value(e["inner"][1])))
        if k == "MemberExpr":
            b, o = self.pair(e["inner"][0])
            return call("__fld__", b, o, C(e["name"]))
        if k == "ConditionalOperator":
            c, a, b = e["inner"]
            n0 = len(self.out)
            r = ast.IfExp(self.value(c), self.value(a), self.value(b))
            if len(self.out) != n0:
                raise Unsupported("side effect in a conditional expression")
            return r
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            r = self.callexpr(e)
            if r[0] == "value":
                # evaluation order: bind the result now
                t = self.fresh()
                self.assign(t, r[1])
                return nm(t)
            return r[1]
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.struct_value(e)
        if k == "CXXDefaultInitExpr":
            raise Unsupported("default initialiser")
        raise Unsupported(f"expression {k}")

    def null(self, x):
        return isinstance(x, ast.Constant) and x.value is None


INTS = {"int", "long", "short", "unsigned int", "unsigned long", "char", "unsigned char", "unsigned short", "long long",
        "unsigned long long", "signed char"}
SCALARS = INTS | {"float", "double", "bool", "long double"}


class KMod(Mod):
    """the translated kernel as an interpreter module"""
    def __init__(self, interp, tu):
        self.interp, self.name = interp, "kernel"
        self.path = os.path.join(tu.repo, "forcepho", "src", "compute_gaussians_kernel.cc")
        self.tu = tu
        self.src = ""
        self.env = Env(None, "kernel")
        self.defs, self.stars = {}, []
        self.err = {}

    def get(self, k):
        if k in self.env.d:
            return self.env.d[k]
        if k in self.tu.funcs:
            d, rec = self.tu.funcs[k]
            node = Fn(self.tu, k, d, rec).translate()
            f = Func(node, self, None, None)
            f.decs = []
            node._path = d.get("_file")
            self.env.d[k] = f
            return f
        raise KeyError(k)


class Kernel:
    """run-time of the translated code"""
    def __init__(self, v):
        self.v, self.I = v, v.I
        self.tu = TU(v.repo)
        self.mod = KMod(v.I, self.tu)
        v.I.mods["kernel"] = self.mod
        self.where = ""
        B = {"__new__": self.new, "__array__": self.array, "__uninit__": lambda k: Poison(f"uninitialised {k}"),
             "__freed__": lambda k: Poison(f"{k} used after free"), "__fld__": self.fld, "__fset__": self.fset,
             "__ld__": self.ld, "__st__": self.st, "__row__": self.row, "__copy__": self.copy, "__into__": self.into,
             "__extnew__": self.extnew, "__extcall__": self.extcall, "__cdiv__": self.cdiv, "__cmod__": self.cmod,
             "__trunc__": self.trunc, "__range__": self.range, "__flt__": self.flt, "__require__": self.require,
             "__m_exp": T.exp, "__m_sqrt": T.sqrt, "__m_cos": T.cos, "__m_sin": T.sin, "__m_log": T.log, "__m_abs": T.absr}
        self.mod.env.d.update(B)

    def fn(self, name):
        """translated function by its C++ name (unique)"""
        return self.mod.get(name)

    def call(self, name, *a):
        return self.I.call(self.fn(name), list(a), {})

    # objects
    def new(self, rn):
        o = Obj(None, rn)
        for f, q, d in self.tu.fields(rn):
            o.a[f] = self.default(q, d)
        return o

    def default(self, q, d=None):
        if d is not None and d.get("hasInClassInitializer") and d.get("inner"):
            e = d["inner"][-1]
            fn = Fn(self.tu, "_init", d, None)
            ex = fn.value(e)
            if fn.out:
                raise Unsupported("initialiser")
            return self.I.ev(ast.fix_missing_locations(ast.Expression(ex)).body, Env(None), self.mod)
        if is_arr(q):
            return self.array(pointee(q), arr_len(q))
        if self.tu.is_struct(q):
            return self.new(strip(q))
        if strip(q) in ("float", "double", "PixFloat"):
            return T.fresh("uninitialised", T.R)           # an indeterminate value
        return Poison("uninitialised field")

    def array(self, el, n):
        n = conc_of(n)
        if self.tu.is_struct(el):
            fields = {}
            for f, q, d in self.tu.fields(strip(el)):
                if is_arr(q):
                    fields[f] = (Buf(2, self._uninit(f), kind_of(pointee(q))), (arr_len(q),))
                elif self.tu.is_struct(q) or is_ptr(q):
                    raise Unsupported("nested struct array")
                else:
                    fields[f] = (Buf(1, self._uninit(f), kind_of(q)), ())
            return Rec((n,), fields, name=el)
        if is_arr(el):
            raise Unsupported("2-d array")
        g = T.fresh_fun("uninit", T.I, {"real": T.R, "int": T.I, "bool": T.B}[kind_of(el)])
        return mk_nd((n,), lambda i: g(T.to_int(i)), kind_of(el))

    def _uninit(self, f):
        cache = {}

        def at(ix):
            if len(ix) not in cache:
                cache[len(ix)] = T.fresh_fun("uninit_" + f, *([T.I] * len(ix) + [T.R]))
            return cache[len(ix)](*[T.to_int(x) for x in ix])
        return at

    bounds = True

    def bound(self, k, n):
        if not self.bounds:
            return          # proved by another contract of the same function
        self.I.oblige(f"{self.v.name}.memory-in-bounds", land(cmp(">=", k, 0), cmp("<", k, n)))

    def chk(self, b):
        if isinstance(b, Poison):
            raise Unsupported(b.why)
        if b is None:
            self.I.oblige(f"{self.v.name}.null-pointer", False)
            raise N.PyRaise("SegmentationFault", "null pointer")

    def fld(self, b, o, f):
        self.chk(b)
        if isinstance(b, Rec):
            if f not in b.fields:
                raise Unsupported(f"field {f}")
            nd = b.field(f)
            self.bound(o, nd.shape[0])
            if nd.ndim == 1:
                return nd.at(o)
            return N.getitem(nd, o)
        if isinstance(b, Obj):
            if f not in b.a:
                raise Unsupported(f"field {f} of {b.name}")
            x = b.a[f]
            if isinstance(x, Poison):
                raise Unsupported(f"field {f}: {x.why}")
            return x
        raise Unsupported(f"field {f} of {type(b).__name__}")

    def fset(self, b, o, f, v):
        self.chk(b)
        if isinstance(b, Rec):
            nd = b.field(f)
            self.bound(o, nd.shape[0])
            N.setitem(nd, o, v)
            return
        if isinstance(b, Obj):
            if isinstance(v, Obj):
                self.into(b.a[f], 0, v)
                return
            b.set(f, v)
            return
        raise Unsupported("field store")

    def ld(self, b, k):
        self.chk(b)
        if not isinstance(b, Nd) or b.ndim != 1:
            raise Unsupported(f"load from {type(b).__name__}")
        self.bound(k, b.shape[0])
        return b.at(T.to_int(k) if is_z3(k) else k)

    def st(self, b, k, v):
        self.chk(b)
        if not isinstance(b, Nd) or b.ndim != 1:
            raise Unsupported(f"store to {type(b).__name__}")
        self.bound(k, b.shape[0])
        N.setitem(b, k, v)

    def row(self, b, k):
        raise Unsupported("array of arrays")

    def copy(self, b, o, rn):
        n = self.new(rn)
        for f, q, d in self.tu.fields(rn):
            if isinstance(b, Obj):
                x = b.a.get(f)
            else:
                x = self.fld(b, o, f)
            if isinstance(x, Obj) and self.tu.is_struct(q):
                x = self.copy(x, 0, strip(q))
            elif isinstance(x, Obj):
                pass                      # a library handle: shared
            elif isinstance(x, Nd):
                x = N.mk_nd(x.shape, N.snap(x), x.kind)
            n.a[f] = x
        return n

    def into(self, b, o, v):
        self.chk(b)
        if isinstance(b, Obj):
            for f, x in v.a.items():
                if isinstance(x, Obj):
                    self.into(b.a[f], 0, x)
                elif isinstance(x, Nd):
                    raise Unsupported("array copy")
                else:
                    b.set(f, x)
            return
        for f, x in v.a.items():
            if isinstance(x, (Obj, Nd, Poison)):
                raise Unsupported("element copy")
            self.fset(b, o, f, x)

    # library objects (pybind11): a zero-filled is NOT assumed
    def extnew(self, q, *a):
        if len(a) == 1 and isinstance(a[0], Obj):
            return a[0]
        if "array_t<" in q and len(a) == 1:
            n = conc_of(a[0])
            g = T.fresh_fun("uninit", T.I, T.R)
            o = Obj(None, "array_t")
            o.a["nd"] = mk_nd((n,), lambda i: g(T.to_int(i)), "real")
            return o
        raise Unsupported(f"library object {q}")

    def extcall(self, b, m, *a):
        if isinstance(b, Obj) and "nd" in b.a:
            if m == "request" and not a:
                return Obj(None, "buffer_info", ptr=b.a["nd"], size=b.a["nd"].shape[0])
            if m in ("mutable_data", "data") and not a:
                return b.a["nd"]
            if m == "size":
                return b.a["nd"].shape[0]
        raise Unsupported(f"library call {m}")

    # scalars
    def cdiv(self, a, b):
        a, b = conc_of(a), conc_of(b)
        if not is_z3(a) and not is_z3(b):
            q = abs(a) // abs(b)
            return q if (a >= 0) == (b > 0) else -q
        if self.I.valid(T.to_bool(cmp(">=", a, 0))) and self.I.valid(T.to_bool(cmp(">", b, 0))):
            return N.divmod_sym(a, b)[0]
        raise Unsupported("integer division of possibly negative numbers")

    def cmod(self, a, b):
        a, b = conc_of(a), conc_of(b)
        if not is_z3(a) and not is_z3(b):
            return a - b * self.cdiv(a, b)
        if self.I.valid(T.to_bool(cmp(">=", a, 0))) and self.I.valid(T.to_bool(cmp(">", b, 0))):
            return N.divmod_sym(a, b)[1]
        raise Unsupported("integer remainder of possibly negative numbers")

    def trunc(self, x):
        x = conc_of(x)
        if not is_z3(x):
            return int(x)
        if z3.is_int(x):
            return x
        raise Unsupported("float to integer")

    def flt(self, s, ty):
        import math
        import numpy as np
        from fractions import Fraction
        v = float(s)
        if abs(v - math.pi) < 1e-6:
            return T.PI
        if ty == "float":
            return Fraction(str(np.float32(v)))
        return Fraction(repr(v))

    def range(self, lo, hi):
        lo, hi = conc_of(lo), conc_of(hi)
        n = conc_of(arith("-", hi, lo))
        if not is_z3(n) and n <= 24:
            return [arith("+", lo, j) for j in range(max(n, 0))]
        if is_z3(n) and not self.I.valid(T.to_bool(cmp(">=", n, 0))):
            n = T.ite(cmp(">", n, 0), n, 0)
        return Seq(n, lambda i: arith("+", lo, i), "keep")

    def require(self, c):
        if conc_of(c) is True or (is_z3(c) and self.I.valid(c)):
            return
        raise Unsupported("loop ending in != with unordered bounds")


def kind_of(q):
    q = strip(q)
    return "real" if q in ("float", "double") else "bool" if q == "bool" else "int"
