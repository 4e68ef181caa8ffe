"""Systematic mutants of /repo's sources against the checks (a test of the checks, not a check itself).

    mutate.py list [FILE ...]                    number of mutants per file
    mutate.py run OUT.jsonl [-j N] [-c MAXCHECKS] [-k STRIDE] [FILE ...]    run the checks on every mutant until one reports a violation

Files are relative to curvlinops/.  Mutants live in scratch copies; /repo is never touched.
"""

import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/curvlinops"
FIRST = {  # the checks that are most likely to notice, by file
    "_torch_base.py": "C26 C11 C12 C16 C15 C01 C29 C13 C14 C04 C17",
    "fisher.py": "C05 C29 C14 C13", "ggn.py": "C02 C11", "gradient_moments.py": "C03 C29", "hessian.py": "C01 C11",
    "inverse.py": "C19 C20 C08 C10 C29", "jacobian.py": "C04 C16 C29", "kfac.py": "C06 C09 C10 C07 C29 C14 C13 C08",
    "kfac_utils.py": "C32 C06 C07 C29", "outer.py": "C27", "sampling.py": "C21 C22", "submatrix.py": "C18",
    "utils.py": "C28 C01 C15 C29", "diagonal/hutchinson.py": "C21", "norm/hutchinson.py": "C21",
    "trace/hutchinson.py": "C21", "trace/meyer2020hutch.py": "C22", "papyan2020traces/spectrum.py": "C23 C24",
    "experimental/activation_hessian.py": "C25 C13 C14", "examples/functorch.py": "C28", "examples/utils.py": "C28",
}
ALL = [f"C{i:02d}" for i in range(1, 33)]
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
        ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
ARITH = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "//"}
METHOD = {"sum": "mean", "mean": "sum", "min": "max", "max": "min", "add_": "sub_", "add": "sub", "mul_": "div_",
          "div_": "mul_", "zeros_like": "ones_like", "zeros": "ones", "eye": "ones", "all": "any", "any": "all",
          "sqrt": "abs", "softmax": "log_softmax", "clone": None, "copy": None, "detach": None, "flatten": None,
          "contiguous": None, "update": None, "pow_": None, "remove": None, "abs": None}


class Collector(ast.NodeVisitor):
    def __init__(self, text):
        self.text, self.out = text, []
        self.lines = text.splitlines(keepends=True)
        self.off = [0]
        for line in self.lines:
            self.off.append(self.off[-1] + len(line.encode()))
        self.raw = text.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def src(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def add(self, n, new, what):
        a, b = self.span(n)
        self.out.append((a, b, new, n.lineno, what))

    # no mutants in annotations, messages, docstrings
    def visit_arg(self, n):
        pass

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_Raise(self, n):
        self.add(n, "pass", "raise removed")

    def visit_JoinedStr(self, n):
        pass

    def visit_FunctionDef(self, n):
        for d in n.args.defaults:
            self.visit(d)
        for s in n.body:
            self.visit(s)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if not isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            self.add(n, "pass", "statement removed")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
            self.add(n, "pass", "assignment removed")
        self.visit(n.value)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "assignment removed")
        op = ARITH.get(type(n.op))
        if op:
            self.add(n, f"{self.src(n.target)} {op}= {self.src(n.value)}", f"{type(n.op).__name__} -> {op}=")
        self.visit(n.value)

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            new = SWAP[type(n.ops[0])]
            self.add(n, f"({self.src(n.left)} {new} {self.src(n.comparators[0])})", f"-> {new}")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        op = ARITH.get(type(n.op))
        if op and not any(isinstance(x, (ast.JoinedStr,)) or isinstance(x, ast.Constant) and isinstance(x.value, str)
                          for x in ast.walk(n)):
            self.add(n, f"({self.src(n.left)} {op} {self.src(n.right)})", f"{type(n.op).__name__} -> {op}")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        new = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + new.join(f"({self.src(v)})" for v in n.values) + ")", f"->{new}")
        for i in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != i]
            old = " and " if isinstance(n.op, ast.And) else " or "
            self.add(n, "(" + old.join(f"({self.src(v)})" for v in rest) + ")", f"operand {i} removed")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.add(n, f"({self.src(n.operand)})", "unary operator removed")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), f"-> {not v}")
        elif isinstance(v, int):
            self.add(n, str(v + 1), f"-> {v + 1}")
            if v > 0:
                self.add(n, str(v - 1), f"-> {v - 1}")
        elif isinstance(v, float):
            self.add(n, repr(v * 1.5 + 0.1), "-> 1.5 v + 0.1")

    def visit_If(self, n):
        self.add(n.test, "True", "condition True")
        self.add(n.test, "False", "condition False")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, f"({self.src(n.body)})", "always first alternative")
        self.add(n, f"({self.src(n.orelse)})", "always second alternative")
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in METHOD:
            new = METHOD[f.attr]
            args = self.src(n)[len(self.src(f)):]
            self.add(n, f"({self.src(f.value)}).{new}{args}" if new else f"({self.src(f.value)})", f".{f.attr} -> {new}")
        elif isinstance(f, ast.Name) and METHOD.get(f.id) and f.id in ("min", "max", "all", "any"):
            self.add(n, METHOD[f.id] + self.src(n)[len(f.id):], f"{f.id} -> {METHOD[f.id]}")
        for k in n.keywords:
            if k.arg is None:
                continue
            parts = [self.src(a) for a in n.args] + [
                (f"{q.arg}=" if q.arg else "**") + self.src(q.value) for q in n.keywords if q is not k]
            self.add(n, f"{self.src(f)}({', '.join(parts)})", f"argument {k.arg} removed")
        if len(n.args) == 2 and not any(isinstance(a, (ast.Starred, ast.GeneratorExp)) for a in n.args) and not (
                isinstance(f, ast.Name) and f.id in ("isinstance", "zip", "getattr", "hasattr", "partial")):
            kws = [(f"{q.arg}=" if q.arg else "**") + self.src(q.value) for q in n.keywords]
            self.add(n, f"{self.src(f)}({', '.join([self.src(n.args[1]), self.src(n.args[0])] + kws)})", "arguments swapped")
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_For(self, n):
        self.add(n.iter, f"list({self.src(n.iter)})[:-1]", "last iteration dropped")
        self.generic_visit(n)


def mutants(f):
    text = open(os.path.join(SRC, f)).read()
    c = Collector(text)
    c.visit(ast.parse(text))
    seen = set()
    for a, b, new, line, what in c.out:
        raw = c.raw[:a] + new.encode() + c.raw[b:]
        if raw in seen or raw == c.raw:
            continue
        seen.add(raw)
        try:
            ast.parse(raw)
        except SyntaxError:
            continue
        yield {"file": f, "line": line, "what": what, "old": c.raw[a:b].decode()[:120], "new": new[:120], "raw": raw.decode()}


MAXCHECKS = 29


def judge(m):
    d = tempfile.mkdtemp(prefix="mutant-", dir="/tmp")
    try:
        shutil.copytree(SRC, os.path.join(d, "curvlinops"), ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(d, "curvlinops", m["file"]), "w") as h:
            h.write(m["raw"])
        order = FIRST.get(m["file"], "").split()
        if "raise" in m["what"] or "condition" in m["what"]:
            order.insert(0, "C29")
        order = list(dict.fromkeys(order))
        order += [c for c in ALL if c not in order and MAXCHECKS >= 29]
        odd = []
        for c in order[:MAXCHECKS]:
            env = dict(os.environ, CURVLINOPS_REPO=d, VERIF_OUT=os.path.join(d, "out"))
            try:
                r = subprocess.run([os.path.join(ROOT, "bin", "check"), c], env=env, capture_output=True, text=True, timeout=240)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc == 1:
                return {"caught": c, "odd": odd}
            if rc != 0:
                odd.append([c, rc])
                if len(odd) > 2:
                    return {"caught": None, "odd": odd}
        return {"caught": None, "odd": odd}
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]
    global MAXCHECKS
    opt = {"-j": 6, "-c": MAXCHECKS, "-k": 1}
    for o in opt:
        if o in args:
            i = args.index(o)
            opt[o] = int(args[i + 1])
            del args[i : i + 2]
    j, MAXCHECKS = opt["-j"], opt["-c"]
    files = args[(1 if args[0] == "list" else 2):] or list(FIRST)
    if args[0] == "list":
        for f in files:
            print(f, len(list(mutants(f))))
        return
    done = set()
    if os.path.exists(args[1]):
        done = {(d["file"], d["line"], d["what"], d["old"], d["new"]) for d in map(json.loads, open(args[1]))}
    todo = [m for f in files for m in list(mutants(f))[:: opt["-k"]] if (m["file"], m["line"], m["what"], m["old"], m["new"]) not in done]
    with ThreadPoolExecutor(j) as pool, open(args[1], "a") as h:
        for m, r in zip(todo, pool.map(judge, todo)):
            m.pop("raw")
            h.write(json.dumps({**m, **r}) + "\n")
            h.flush()


if __name__ == "__main__":
    main()
