"""Contracts on C functions: clang's AST of the file as it is in /repo, executed symbolically with exact machine arithmetic
(bit-vectors; memory objects are byte arrays of symbolic length).

A loop with a symbolic number of iterations is cut at its head by an invariant: every variable the loop changes by a constant
per iteration equals its initial value plus that constant times the ghost iteration count t, 0 <= t <= bound, and the caller's
content invariant holds for t.  The invariant is established before the loop, shown to be preserved by one arbitrary
iteration, and assumed after the loop.  Every load and store raises an in-bounds obligation.
"""
import json
import os
import re
import subprocess
import tempfile

import z3

B8, B64 = z3.BitVecSort(8), z3.BitVecSort(64)


class CUnsupported(Exception):
    pass


def clang_ast(path, include=(), defs=()):
    with tempfile.TemporaryDirectory() as d:
        open(os.path.join(d, "Python.h"), "w").write("#include <stddef.h>\n")  # pack.c only needs the standard types from it
        out = subprocess.run(["clang", "-w", "-D_GNU_SOURCE", *defs, "-I" + d, *("-I" + i for i in include), "-Xclang", "-ast-dump=json", "-fsyntax-only", path],
                             capture_output=True, text=True)
    if not out.stdout:
        raise CUnsupported("clang: " + out.stderr[-500:])
    return json.loads(out.stdout)


INT = {"char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False),
       "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False), "_Bool": (8, False)}
SIZE = {"float": 4, "double": 8}


class Ptr:
    def __init__(self, obj, off, elem):
        self.obj, self.off, self.elem = obj, off, elem


def _ty(node):
    t = node["type"]
    q = t.get("desugaredQualType") or t["qualType"]
    return re.sub(r"\b(const|volatile|register|restrict)\b", "", q).replace("  ", " ").strip()


def _width(t):
    t = t.strip()
    if t.endswith("*"):
        return 64
    if t in INT:
        return INT[t][0]
    if t in SIZE:
        return 8 * SIZE[t]
    raise CUnsupported("type " + t)


class State:
    def __init__(self, vars, mem):
        self.vars, self.mem = vars, mem

    def copy(self):
        return State(dict(self.vars), dict(self.mem))


class Exec:
    """One verification run of one function."""

    def __init__(self, ast, sizes, content, bound):
        self.funcs = {n["name"]: n for n in ast["inner"] if n["kind"] == "FunctionDecl" and any(c["kind"] == "CompoundStmt" for c in n.get("inner", []))}
        self.sizes, self.content, self.bound = sizes, content, bound
        self.hyps = []
        self.obls = []
        self.depth = 0
        self.frozen = None  # memory of read-only objects

    def obl(self, name, goal):
        self.obls.append((name, list(self.hyps), goal))

    # ---- values
    def conv(self, v, src, dst):
        if isinstance(v, Ptr):
            if dst.endswith("*"):
                return Ptr(v.obj, v.off, dst[:-1].strip())
            raise CUnsupported("pointer to integer")
        if dst.endswith("*"):
            raise CUnsupported("integer to pointer")
        if dst in SIZE or src in SIZE:
            if dst == src:
                return v
            raise CUnsupported("floating conversion")
        (w0, s0), (w1, _) = INT[src], INT[dst]
        if w1 < w0:
            return z3.Extract(w1 - 1, 0, v)
        if w1 > w0:
            return z3.SignExt(w1 - w0, v) if s0 else z3.ZeroExt(w1 - w0, v)
        return v

    def load(self, st, p, t):
        n = _width(t) // 8
        self.bounds(p, n, "read")
        a = st.mem[p.obj]
        bs = [z3.Select(a, p.off + b) for b in range(n)]
        return bs[0] if n == 1 else z3.Concat(*bs[::-1])

    def store(self, st, p, t, v):
        n = _width(t) // 8
        self.bounds(p, n, "write")
        a = st.mem[p.obj]
        for b in range(n):
            a = z3.Store(a, p.off + b, z3.Extract(8 * b + 7, 8 * b, v))
        st.mem[p.obj] = a

    def bounds(self, p, n, what):
        size = self.sizes[p.obj]
        self.obl(f"{what} stays inside the buffer of {p.obj}", z3.And(z3.ULE(p.off + n, size), z3.ULE(p.off, size), z3.ULT(p.off, p.off + n)))

    def true(self, v):
        return v.off == v.off if isinstance(v, Ptr) else v != 0

    # ---- expressions; returns a value, or for lvalues use self.lv
    def lv(self, n, st):
        k = n["kind"]
        if k == "ParenExpr":
            return self.lv(n["inner"][0], st)
        if k == "DeclRefExpr":
            return ("var", n["referencedDecl"]["id"], _ty(n))
        if k == "UnaryOperator" and n["opcode"] == "*":
            p = self.ev(n["inner"][0], st)
            return ("mem", p, _ty(n))
        if k == "ArraySubscriptExpr":
            p, i = self.ev(n["inner"][0], st), self.ev(n["inner"][1], st)
            if not isinstance(p, Ptr):
                raise CUnsupported("index[pointer]")
            return ("mem", self.padd(p, i, _ty(n["inner"][1]), 1), _ty(n))
        raise CUnsupported("lvalue " + k)

    def padd(self, p, i, t, sign):
        d = self.conv(i, t, "long") * (_width(p.elem) // 8)
        return Ptr(p.obj, z3.simplify(p.off + d if sign > 0 else p.off - d), p.elem)

    def get(self, lv, st):
        if lv[0] == "var":
            if lv[1] not in st.vars:
                w = _width(lv[2])
                if lv[2].endswith("*"):
                    raise CUnsupported("uninitialised pointer")
                st.vars[lv[1]] = z3.FreshConst(z3.BitVecSort(w), "uninit")
            return st.vars[lv[1]]
        return self.load(st, lv[1], lv[2])

    def put(self, lv, v, st):
        if lv[0] == "var":
            st.vars[lv[1]] = v if isinstance(v, Ptr) else z3.simplify(v)
        else:
            self.store(st, lv[1], lv[2], v)

    def ev(self, n, st):
        k = n["kind"]
        I = n.get("inner", [])
        if k == "ParenExpr":
            return self.ev(I[0], st)
        if k in ("IntegerLiteral", "CharacterLiteral"):
            return z3.BitVecVal(int(n["value"]), _width(_ty(n)))
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            ck = n.get("castKind")
            if ck == "LValueToRValue":
                return self.get(self.lv(I[0], st), st)
            if ck in ("NoOp",):
                return self.ev(I[0], st)
            if ck in ("BitCast", "IntegralCast"):
                return self.conv(self.ev(I[0], st), _ty(I[0]), _ty(n))
            if ck == "ToVoid":
                self.ev(I[0], st)
                return None
            if ck == "ArrayToPointerDecay":
                lv = self.lv(I[0], st)
                if lv[0] == "var" and isinstance(st.vars.get(lv[1]), Ptr):
                    return st.vars[lv[1]]
            raise CUnsupported("cast " + str(ck))
        if k == "UnaryExprOrTypeTraitExpr" and n.get("name") == "sizeof":
            q = (n.get("argType") or I[0]["type"])
            return z3.BitVecVal(_width((q.get("desugaredQualType") or q["qualType"]).strip()) // 8, 64)
        if k == "UnaryOperator":
            op = n["opcode"]
            if op in ("++", "--"):
                lv = self.lv(I[0], st)
                old = self.get(lv, st)
                one = z3.BitVecVal(1, 32)
                if isinstance(old, Ptr):
                    new = self.padd(old, one, "int", 1 if op == "++" else -1)
                else:
                    new = old + 1 if op == "++" else old - 1
                self.put(lv, new, st)
                return old if n.get("isPostfix") else new
            if op == "*":
                return self.get(self.lv(n, st), st)
            if op == "&":
                lv = self.lv(I[0], st)
                if lv[0] == "mem":
                    return lv[1]
                raise CUnsupported("address of a variable")
            v = self.ev(I[0], st)
            if op == "-":
                return -v
            if op == "+":
                return v
            if op == "~":
                return ~v
            if op == "!":
                return z3.If(self.true(v), z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))
            raise CUnsupported("unary " + op)
        if k == "BinaryOperator":
            op = n["opcode"]
            if op == "=":
                v = self.ev(I[1], st)
                self.put(self.lv(I[0], st), v, st)
                return v
            if op == ",":
                self.ev(I[0], st)
                return self.ev(I[1], st)
            if op in ("&&", "||"):
                a = self.true(self.ev(I[0], st))
                s2 = st.copy()
                n0 = len(self.hyps)
                self.hyps.append(a if op == "&&" else z3.Not(a))
                b = self.true(self.ev(I[1], s2))
                del self.hyps[n0:]
                if any(s2.vars.get(v) is not st.vars.get(v) for v in s2.vars) or any(s2.mem[o] is not st.mem[o] for o in s2.mem):
                    raise CUnsupported("side effect in a condition")
                return z3.If(z3.And(a, b) if op == "&&" else z3.Or(a, b), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
            a, b = self.ev(I[0], st), self.ev(I[1], st)
            return self.arith(op, a, b, I[0], I[1])
        if k == "CompoundAssignOperator":
            op = n["opcode"][:-1]
            b = self.ev(I[1], st)
            lv = self.lv(I[0], st)
            a = self.get(lv, st)
            if isinstance(a, Ptr):
                new = self.padd(a, b, _ty(I[1]), 1 if op == "+" else -1)
            else:
                ct = (n["computeLHSType"].get("desugaredQualType") or n["computeLHSType"]["qualType"])
                a = self.conv(a, lv[2], ct)
                new = self.conv(self.arith(op, a, b, None, None, t=ct), ct, lv[2])
            self.put(lv, new, st)
            return new
        if k == "ConditionalOperator":
            c = self.true(self.ev(I[0], st))
            s1, s2 = st.copy(), st.copy()
            n0 = len(self.hyps)
            self.hyps.append(c)
            a = self.ev(I[1], s1)
            self.hyps[n0:] = [z3.Not(c)]
            b = self.ev(I[2], s2)
            del self.hyps[n0:]
            self.merge(c, s1, s2, st)
            return self.ite(c, a, b)
        if k == "CallExpr":
            f = I[0]
            while f["kind"] != "DeclRefExpr":
                f = f["inner"][0]
            name = f["referencedDecl"]["name"]
            args = [self.ev(a, st) for a in I[1:]]
            if name not in self.funcs:
                if name in ("memcpy", "memmove", "__builtin_memcpy"):
                    m = z3.simplify(args[2])
                    if z3.is_bv_value(m) and m.as_long() <= 64:
                        bs = [self.load(st, Ptr(args[1].obj, args[1].off + i, "char"), "char") for i in range(m.as_long())]
                        for i, v in enumerate(bs):
                            self.store(st, Ptr(args[0].obj, args[0].off + i, "char"), "char", v)
                        return args[0]
                m = re.fullmatch(r"(?:__builtin_)?bswap(?:_)?(16|32|64)|__bswap_(16|32|64)", name)
                if m:
                    w = int(m.group(1) or m.group(2))
                    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, args[0]) for i in range(w // 8)])
                raise CUnsupported("call of " + name)
            return self.call(name, args, st)
        if k == "DeclRefExpr":
            return self.get(self.lv(n, st), st)
        raise CUnsupported("expression " + k)

    def arith(self, op, a, b, na, nb, t=None):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj != b.obj:
                    raise CUnsupported("comparing pointers of different objects")
                x, y = a.off, b.off
                cmp = {"<": z3.ULT, "<=": z3.ULE, ">": z3.UGT, ">=": z3.UGE, "==": lambda p, q: p == q, "!=": lambda p, q: p != q}
                if op in cmp:
                    return z3.If(cmp[op](x, y), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
                raise CUnsupported("pointer " + op)
            if op == "+":
                return self.padd(a, b, _ty(nb), 1) if isinstance(a, Ptr) else self.padd(b, a, _ty(na), 1)
            if op == "-" and isinstance(a, Ptr):
                return self.padd(a, b, _ty(nb), -1)
            raise CUnsupported("pointer " + op)
        t = t or _ty(na)
        if t not in INT:
            raise CUnsupported("arithmetic on " + t)
        sg = INT[t][1]
        if op in ("<<", ">>") and b.size() != a.size():
            b = self.conv(b, _ty(nb), t) if nb else b
        if op in "+-*&|^":
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[op]()
        if op == "<<":
            return a << b
        if op == ">>":
            return a >> b if sg else z3.LShR(a, b)
        if op == "/":
            return a / b if sg else z3.UDiv(a, b)
        if op == "%":
            return z3.SRem(a, b) if sg else z3.URem(a, b)
        cmp = {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b if sg else z3.ULT(a, b), "<=": lambda: a <= b if sg else z3.ULE(a, b),
               ">": lambda: a > b if sg else z3.UGT(a, b), ">=": lambda: a >= b if sg else z3.UGE(a, b)}
        if op in cmp:
            return z3.If(cmp[op](), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
        raise CUnsupported("operator " + op)

    def ite(self, c, a, b):
        if a is b or a is None:
            return a
        if isinstance(a, Ptr):
            if a.obj != b.obj or a.elem != b.elem:
                raise CUnsupported("pointer to one of two objects")
            return Ptr(a.obj, z3.simplify(z3.If(c, a.off, b.off)), a.elem)
        return z3.simplify(z3.If(c, a, b))

    def merge(self, c, s1, s2, out):
        out.vars = {v: self.ite(c, s1.vars[v], s2.vars[v]) for v in s1.vars if v in s2.vars}
        out.mem = {o: s1.mem[o] if s1.mem[o] is s2.mem[o] else z3.If(c, s1.mem[o], s2.mem[o]) for o in s1.mem}

    # ---- statements
    def run(self, n, st):
        k = n.get("kind")
        I = n.get("inner", [])
        if k is None or k == "NullStmt":
            return
        if k == "CompoundStmt":
            for s in I:
                self.run(s, st)
        elif k == "DeclStmt":
            for d in I:
                if d["kind"] != "VarDecl":
                    continue
                if d.get("storageClass") == "static":
                    raise CUnsupported("static variable")
                init = [c for c in d.get("inner", []) if c["kind"].endswith(("Expr", "Operator", "Literal"))]
                t = _ty(d)
                m = re.fullmatch(r"(.*)\[(\d+)\]", t)
                st.vars.pop(d["id"], None)
                if m:
                    nm = "local_" + d["name"] + d["id"]
                    st.mem[nm] = z3.FreshConst(z3.ArraySort(B64, B8), "loc")
                    self.sizes[nm] = z3.BitVecVal(_width(m.group(1).strip()) // 8 * int(m.group(2)), 64)
                    st.vars[d["id"]] = Ptr(nm, z3.BitVecVal(0, 64), m.group(1).strip())
                    if init:
                        raise CUnsupported("array initialiser")
                elif init:
                    st.vars[d["id"]] = self.ev(init[0], st)
        elif k == "IfStmt":
            c = z3.simplify(self.true(self.ev(I[0], st)))
            s1, s2 = st.copy(), st.copy()
            n0 = len(self.hyps)
            self.hyps.append(c)
            self.run(I[1], s1)
            self.hyps[n0:] = [z3.Not(c)]
            if len(I) > 2:
                self.run(I[2], s2)
            del self.hyps[n0:]
            if z3.is_true(c):
                st.vars, st.mem = s1.vars, s1.mem
            elif z3.is_false(c):
                st.vars, st.mem = s2.vars, s2.mem
            else:
                self.merge(c, s1, s2, st)
        elif k == "ForStmt":
            self.run(I[0], st)
            self.loop(I[2] if I[2].get("kind") else None, I[3] if I[3].get("kind") else None, I[4], st)
        elif k == "WhileStmt":
            self.loop(I[0], None, I[1], st)
        elif k == "ReturnStmt":
            if self.depth == 0 and I:
                raise CUnsupported("return value")
            self.ret = self.ev(I[0], st) if I else None
            if not self.last_ok:
                raise CUnsupported("early return")
        elif k.endswith(("Expr", "Operator")):
            self.ev(n, st)
        else:
            raise CUnsupported("statement " + k)

    def loop(self, cond, inc, body, st):
        for _ in range(65):  # concrete trip count: run it
            s0 = st.copy()
            n0, h0 = len(self.obls), len(self.hyps)
            c = z3.simplify(self.true(self.ev(cond, s0))) if cond is not None else z3.BoolVal(True)
            if z3.is_false(c):
                st.vars, st.mem = s0.vars, s0.mem
                return
            if not z3.is_true(c):
                del self.obls[n0:], self.hyps[h0:]
                break
            st.vars, st.mem = s0.vars, s0.mem
            self.run(body, st)
            if inc is not None:
                self.run(inc, st)
        else:
            raise CUnsupported("loop bound")
        if self.depth:
            raise CUnsupported("symbolic loop in a callee")

        # which variables change, and by how much per iteration
        def havoc(s):
            h = s.copy()
            for v, x in s.vars.items():
                h.vars[v] = Ptr(x.obj, z3.FreshConst(B64, "off"), x.elem) if isinstance(x, Ptr) else z3.FreshConst(x.sort(), "v")
            for o in s.mem:
                h.mem[o] = z3.FreshConst(z3.ArraySort(B64, B8), "m")
            return h

        def once(s):
            c = self.true(self.ev(cond, s))
            exit_ = s.copy()
            n0 = len(self.hyps)
            self.hyps.append(c)
            self.run(body, s)
            if inc is not None:
                self.run(inc, s)
            del self.hyps[n0:]
            return c, exit_

        probe = havoc(st)
        p0 = probe.copy()
        n0, h0 = len(self.obls), len(self.hyps)
        once(probe)
        del self.obls[n0:], self.hyps[h0:]
        step = {}
        for v in p0.vars:
            a, b = p0.vars[v], probe.vars.get(v)
            if b is None:
                continue
            if isinstance(a, Ptr):
                d = z3.simplify(b.off - a.off) if isinstance(b, Ptr) and b.obj == a.obj else None
            else:
                d = z3.simplify(b - a)
            step[v] = d.as_signed_long() if d is not None and z3.is_bv_value(d) else None
        changed_mem = [o for o in p0.mem if o in probe.mem and probe.mem[o] is not p0.mem[o] and not z3.eq(probe.mem[o], p0.mem[o])]

        def head(t):
            h = st.copy()
            for v, d in step.items():
                x = st.vars[v]
                if d == 0:
                    continue
                if d is None:
                    h.vars[v] = Ptr(x.obj, z3.FreshConst(B64, "off"), x.elem) if isinstance(x, Ptr) else z3.FreshConst(x.sort(), "v")
                elif isinstance(x, Ptr):
                    h.vars[v] = Ptr(x.obj, x.off + d * t, x.elem)
                else:
                    w = x.size()
                    tt = t if w == 64 else z3.Extract(w - 1, 0, t)
                    h.vars[v] = x + d * tt
            for o in changed_mem:
                h.mem[o] = z3.FreshConst(z3.ArraySort(B64, B8), "m_" + o)
            return h

        zero = z3.BitVecVal(0, 64)
        self.obl("loop invariant holds at entry", self.content(zero, st.mem))
        t = z3.FreshConst(B64, "t")
        h = head(t)
        m0 = dict(h.mem)
        inv = [z3.ULE(t, self.bound), self.content(t, h.mem)]
        n0 = len(self.hyps)
        self.hyps += inv
        c, exit_ = once(h)
        self.hyps.append(c)
        for v, d in step.items():
            if d:
                x, y = st.vars[v], h.vars[v]
                if isinstance(x, Ptr):
                    self.obl("loop invariant: pointer", y.off == x.off + d * (t + 1))
                else:
                    w = x.size()
                    tt = t + 1 if w == 64 else z3.Extract(w - 1, 0, t + 1)
                    self.obl("loop invariant: counter", y == x + d * tt)
        self.obl("loop runs once per element at most", z3.ULT(t, self.bound))
        self.obl("loop invariant is preserved", self.content(t + 1, h.mem))
        del self.hyps[n0:]
        # after the loop
        t2 = z3.FreshConst(B64, "t_end")
        h2 = head(t2)
        self.hyps += [z3.ULE(t2, self.bound), self.content(t2, h2.mem)]
        c2 = self.true(self.ev(cond, h2))
        self.hyps.append(z3.Not(c2))
        st.vars, st.mem = h2.vars, h2.mem

    def call(self, name, args, st):
        f = self.funcs[name]
        if self.depth > 4:
            raise CUnsupported("recursion")
        params = [c for c in f["inner"] if c["kind"] == "ParmVarDecl"]
        body = [c for c in f["inner"] if c["kind"] == "CompoundStmt"][0]
        saved = st.vars
        st.vars = {p["id"]: a for p, a in zip(params, args)}
        self.depth += 1
        self.ret = None
        I = body.get("inner", [])
        for j, s in enumerate(I):
            self.last_ok = j == len(I) - 1
            self.run(s, st)
        self.depth -= 1
        st.vars = saved
        return self.ret

    def verify(self, name, args, mem):
        f = self.funcs.get(name)
        if f is None:
            raise CUnsupported("no function " + name)
        params = [c for c in f["inner"] if c["kind"] == "ParmVarDecl"]
        if len(params) != len(args):
            raise CUnsupported("signature of " + name)
        st = State({p["id"]: (Ptr(a.obj, a.off, _ty(p)[:-1].strip()) if isinstance(a, Ptr) else a) for p, a in zip(params, args)}, dict(mem))
        self.last_ok = False
        body = [c for c in f["inner"] if c["kind"] == "CompoundStmt"][0]
        I = body.get("inner", [])
        for j, s in enumerate(I):
            self.last_ok = j == len(I) - 1
            self.run(s, st)
        return st
