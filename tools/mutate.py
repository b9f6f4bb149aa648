#!/opt/venv/bin/python
"""
mutate.py <file relative to /repo> <P01,P10,..> [n] [seed]
Mutation study: n small changes of one source file, each checked (in a scratch
copy, in parallel) by the given checks until one reports a violation.  Prints
the survivors with their diffs; used to find blind spots of the generators.
"""
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = os.environ.get("MUT_BASE", "/repo")

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv,
       ast.Pow: ast.Mult}


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)):
            if n.body and isinstance(n.body[0], ast.Expr) and \
                    isinstance(n.body[0].value, ast.Constant):
                out.add(id(n.body[0]))
                out.add(id(n.body[0].value))
    return out


def sites(tree):
    """ [(description, function(tree copy's node) -> None)] by node index """
    doc = docstrings(tree)
    res = []
    for i, n in enumerate(ast.walk(tree)):
        if id(n) in doc:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            res.append((i, "cmp", ln))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            res.append((i, "bin", ln))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                res.append((i, "bool", ln))
            elif isinstance(n.value, int):
                res.append((i, "int", ln))
            elif isinstance(n.value, float):
                res.append((i, "float", ln))
            elif n.value is None:
                pass
        elif isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                res.append((i, "dropkw%d" % k, ln))
            if len(n.args) >= 2:
                for k in range(len(n.args) - 1):
                    if ast.dump(n.args[k]) != ast.dump(n.args[k + 1]):
                        res.append((i, "swap%d" % k, ln))
        elif isinstance(n, ast.BoolOp):
            res.append((i, "boolop", ln))
        elif isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            res.append((i, "neg", ln))
        elif isinstance(n, ast.With):
            res.append((i, "nowith", ln))
        elif isinstance(n, ast.Slice):
            pass
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) \
                and not (isinstance(n, ast.Assign) and
                         isinstance(n.targets[0], ast.Name) and False):
            res.append((i, "del", ln))
        if isinstance(n, ast.Attribute) and n.attr == "copy":
            res.append((i, "nocopy", ln))
    return res


def mutate(tree, i, kind):
    t = copy.deepcopy(tree)
    nodes = list(ast.walk(t))
    n = nodes[i]
    if kind == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == "bin":
        n.op = BIN[type(n.op)]()
    elif kind == "bool":
        n.value = not n.value
    elif kind == "int":
        n.value = n.value + 1
    elif kind == "float":
        n.value = n.value * 1.5 + 0.1
    elif kind.startswith("dropkw"):
        del n.keywords[int(kind[6:])]
    elif kind.startswith("swap"):
        k = int(kind[4:])
        n.args[k], n.args[k + 1] = n.args[k + 1], n.args[k]
    elif kind == "boolop":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "neg":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "nowith":
        new = ast.If(ast.Constant(True), n.body, [])
        replace(t, n, new)
    elif kind == "del":
        replace(t, n, ast.Pass())
    elif kind == "nocopy":
        n.attr = "view"
    ast.fix_missing_locations(t)
    return t


def replace(tree, old, new):
    for p in ast.walk(tree):
        for f, v in ast.iter_fields(p):
            if isinstance(v, list):
                for k, x in enumerate(v):
                    if x is old:
                        v[k] = new
                        return


def run(job):
    rel, src, checks, tag, base_lines = job
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        tree = os.path.join(d, "repo")
        shutil.copytree(BASE, tree, symlinks=True,
                        ignore=shutil.ignore_patterns(".git", "docs"))
        with open(os.path.join(tree, rel), "w") as f:
            f.write(src)
        env = dict(os.environ, AFRICANUS_REPO=tree, VERIF_NOMIN="1",
                   VERIF_JOBS="1", VERIF_SEED="1", VERIF_OUT=d)
        for c in checks:
            try:
                p = subprocess.run([PY, "run.py", "check", c, "quick"],
                                   cwd=HERE, env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True,
                                   errors="replace", timeout=1500)
            except subprocess.TimeoutExpired:
                return tag, "TIMEOUT " + c, ""
            if p.returncode == 1:
                v = [x for x in p.stdout.splitlines()
                     if x.startswith("VIOLATION")]
                return tag, "killed " + c, (v or [""])[0][:150]
            if p.returncode != 0:
                return tag, "ERROR " + c, p.stdout[-300:]
        return tag, "SURVIVED", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


TEXT = ((" + ", " - "), (" - ", " + "), ("*", "+"), ("<", "<="), (">=", ">"),
        ("&&", "||"), ("||", "&&"), ("==", "!="), ("+=", "-="), ("0", "1"),
        ("1", "2"), ("2", "1"), (".x", ".y"), (".y", ".x"), ("/", "*"),
        (" = ", " += "), ("sin", "cos"), ("antenna1", "antenna2"),
        ("__syncthreads();", ""), ("lower", "upper"), ("upper", "lower"))


def text_sites(src):
    """ one-token changes of a CUDA template """
    import re
    src = re.sub(r"{#.*?#}", lambda m: re.sub(r"[^\n]", " ", m.group()), src,
                 flags=re.S)
    out, pos = [], 0
    for ln, line in enumerate(src.split("\n"), 1):
        code = line.split("//")[0]
        if not code.strip().startswith("#"):
            for a, b in TEXT:
                i = code.find(a)
                while i >= 0:
                    if not (a in "<" and ("CArray" in code or
                                          "template" in code or
                                          "_cast" in code or code[i + 1:i + 2]
                                          == "=")):
                        out.append((pos + i, a, b, ln))
                    i = code.find(a, i + 1)
            if code.strip().endswith(";") and "{%" not in code:
                out.append((pos, line, "", ln))
        pos += len(line) + 1
    return out


def text_main(rel, src, checks, n, rng):
    ss = text_sites(src)
    print(rel, len(ss), "sites")
    rng.shuffle(ss)
    jobs = []
    for i, a, b, ln in ss[:n]:
        assert src[i:i + len(a)] == a
        new = src[:i] + b + src[i + len(a):]
        old = src.split("\n")[ln - 1].strip()
        jobs.append((rel, new, checks, "L%d %r -> %r: %s" % (
            ln, a.strip(), b, old[:100]), None))
    report(rel, jobs)


def main(argv):
    rel, checks = argv[0], argv[1].split(",")
    n = int(argv[2]) if len(argv) > 2 else 60
    rng = random.Random(int(argv[3]) if len(argv) > 3 else 1)
    src = open(os.path.join(BASE, rel)).read()
    if not rel.endswith(".py"):
        return text_main(rel, src, checks, n, rng)
    tree = ast.parse(src)
    lines = src.splitlines()
    ss = sites(tree)
    print(rel, len(ss), "sites")
    rng.shuffle(ss)
    jobs = []
    seen = set()
    base = ast.unparse(tree)
    for i, kind, ln in ss[:n]:
        try:
            new = ast.unparse(mutate(tree, i, kind))
            compile(new, rel, "exec")
        except Exception:
            continue
        if new == base or new in seen:
            continue
        seen.add(new)
        a, b = base.splitlines(), new.splitlines()
        import difflib
        d = [x for x in difflib.unified_diff(a, b, lineterm="", n=0)
             if x[:1] in "+-" and x[:3] not in ("+++", "---")]
        jobs.append((rel, new, checks, "L%d %s: %s" % (
            ln, kind, " => ".join(x[:110] for x in d[:4])), lines))
    report(rel, jobs)


def report(rel, jobs):
    k = 0
    with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "8"))) as ex:
        for tag, res, info in ex.map(run, jobs):
            k += res.startswith("killed")
            if not res.startswith("killed"):
                print(res, "|", tag, "|", info, flush=True)
    print(rel, "killed %d of %d" % (k, len(jobs)), flush=True)


if __name__ == "__main__":
    main(sys.argv[1:])
