"""Development aid (no check uses it): mutate every statement of the repository and see which checks notice.
auto.py OUT.jsonl SAMPLE SEED [file-substring...]; run from a scratch copy of /verif (VERIF=<dir>)."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.environ.get("VERIF", "/verif")
BASE = os.environ.get("MUT_BASE", "/repo")
SRC = BASE + "/src/fedservice"
EXTRA = os.environ.get("MUT_EXTRA")
SCALE = os.environ.get("MUT_SCALE", "0.35")
MAP = {
    "entity/function/trust_chain_collector": "C03 C01 C08 C20 C27 C02", "entity/function/verifier": "C01 C17 C02 C08 C04 C27",
    "entity/function/policy_operator": "C05 C06", "entity/function/policy.py": "C06 C05 C07",
    "entity/function/trust_mark_verifier": "C16", "entity/function/trust_anchor": "C26 C08 C03", "entity/function/__init__": "C07 C01 C18 C20 C19 C13",
    "entity/client": "C26 C15 C16 C20 C10", "entity/server/__init__": "C12 C11 C13 C10", "entity/server/fetch": "C11", "entity/server/list": "C12",
    "entity/server/resolve": "C13", "entity/server/entity_configuration": "C10 C15", "entity/context": "C10 C09 C11 C16", "entity/__init__": "C10 C22 C13 C20 C21 C19 C16",
    "entity/utils": "C18 C19 C10", "entity/service": "C10 C26", "entity/claims": "C10", "entity_statement/cache": "C08 C03 C26",
    "entity_statement/constraints": "C04", "entity_statement/create": "C09 C10", "entity_statement/statement": "C22 C01 C07",
    "trust_mark_entity/entity": "C15 C14 C16", "trust_mark_entity/__init__": "C14 C15", "trust_mark_entity": "C15 C14",
    "appserver/oidc/reg": "C18 C21", "appserver/oauth2/reg": "C18 C21", "appserver/oidc/auth": "C19 C21", "appserver/oauth2/auth": "C19 C21",
    "appserver/oauth2/pushed": "C19 C21", "appserver/__init__": "C18 C19 C21 C10", "appclient/oidc/reg": "C20 C21", "appclient/oauth2/reg": "C20 C21",
    "appclient/oidc/auth": "C21", "appclient/oauth2/auth": "C21", "appclient/__init__": "C20 C21 C10", "appclient/stand": "C21 C22", "appclient/claims": "C10 C21",
    "combo": "C10 C18 C21", "message": "C17 C09 C26 C15 C16 C01", "build_entity": "C10 C12 C26", "defaults": "C10 C21 C26", "utils": "C10 C12 C14 C26",
    "fetch_entity_statement": "C12", "server.py": "C10 C18", "exception": "C01", "__init__.py": "C22 C10",
}
CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"],
       ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
LOG = re.compile(r"^\s*(logger|LOGGER|_logger|logging)\b|^\s*print\b|^\s*super\b")


KINDS = {"index", "no-copy", "shallow", "no-str", "no-default", "swap-args", "append-once", "and-or", "or-order", "drop-elt", "drop-item", "comp-if", "eq-prefix", "eq-prefix2"}


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    offs = [0]
    for x in lines:
        offs.append(offs[-1] + len(x.encode()))
    raw = src.encode()

    def pos(l, c):
        return offs[l - 1] + c

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def txt(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def add(n, new, kind, sp=None):
        a, b = sp or span(n)
        if raw[a:b].decode() != new:
            out.append((a, b, new, kind, n.lineno))

    def extra(n):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and txt(n.slice) in ("0", "-1"):
            add(n, f"{txt(n.value)}[{'-1' if txt(n.slice) == '0' else '0'}]", "index")
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr == "copy" and not n.args:
                add(n, txt(f.value), "no-copy")
            if isinstance(f, ast.Name) and f.id in ("deepcopy", "list", "dict", "set", "sorted", "reversed") and len(n.args) == 1:
                add(n, txt(n.args[0]), "no-copy")
            if isinstance(f, ast.Name) and f.id == "deepcopy":
                add(n, f"({txt(n.args[0])}).copy()", "shallow")
            if isinstance(f, ast.Attribute) and f.attr in ("lower", "upper", "strip", "rstrip", "lstrip"):
                add(n, txt(f.value), "no-str")
            if isinstance(f, ast.Attribute) and f.attr == "get" and len(n.args) == 2 and txt(n.args[1]) != "None":
                add(n, f"{txt(f)}({txt(n.args[0])})", "no-default")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]) and not (isinstance(f, ast.Attribute) and f.attr in ("get", "debug", "info", "warning")):
                rest = [txt(n.args[1]), txt(n.args[0])] + [txt(a) for a in n.args[2:]] + [(f"{q.arg}=" if q.arg else "**") + txt(q.value) for q in n.keywords]
                add(n, f"{txt(f)}({', '.join(rest)})", "swap-args")
            if isinstance(f, ast.Attribute) and f.attr in ("append", "extend") and len(n.args) == 1 and isinstance(f.value, (ast.Name, ast.Attribute)):
                add(n, f"{txt(f)}({txt(n.args[0])}) if not {txt(f.value)} else None", "append-once")
        if isinstance(n, ast.BoolOp):
            add(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(f"({txt(v)})" for v in n.values) + ")", "and-or")
            if isinstance(n.op, ast.Or):
                add(n, "(" + " or ".join(f"({txt(v)})" for v in reversed(n.values)) + ")", "or-order")
        if isinstance(n, (ast.List, ast.Set, ast.Tuple)) and len(n.elts) >= 2 and isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
            o, c = {"List": "[]", "Set": "{}", "Tuple": "()"}[type(n).__name__]
            for i in range(len(n.elts)):
                add(n, o + ", ".join(txt(e) for j, e in enumerate(n.elts) if j != i) + ("," if o == "(" else "") + c, "drop-elt")
        if isinstance(n, ast.Dict) and len(n.keys) >= 2 and all(n.keys):
            for i in range(len(n.keys)):
                add(n, "{" + ", ".join(f"{txt(k)}: {txt(v)}" for j, (k, v) in enumerate(zip(n.keys, n.values)) if j != i) + "}", "drop-item")
        if isinstance(n, ast.For):
            for s in ("[:-1]", "[1:]", "[:1]"):
                add(n.iter, f"list({txt(n.iter)}){s}", "loop" + s)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            g = n.generators[0]
            for s in ("[:-1]", "[1:]"):
                add(g.iter, f"list({txt(g.iter)}){s}", "comp" + s)
            for c in g.ifs:
                add(c, "True", "comp-if")
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            neg = "not " if isinstance(n.ops[0], ast.NotEq) else ""
            a, b = txt(n.left), txt(n.comparators[0])
            if not isinstance(n.comparators[0], (ast.Constant, ast.Dict, ast.List, ast.Set)) and not isinstance(n.left, ast.Call):
                add(n, f"{neg}str({a}).startswith(str({b}))", "eq-prefix")
                add(n, f"{neg}str({b}).startswith(str({a}))", "eq-prefix2")
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            pass

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            kids = body
        else:
            kids = list(ast.iter_child_nodes(n))
        if isinstance(n, ast.Expr) and LOG.match(txt(n)):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for alt in CMP.get(type(n.ops[0]), []):
                add(n, f"{txt(n.left)} {alt} {txt(n.comparators[0])}", "cmp")
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({txt(v)})" for j, v in enumerate(n.values) if j != i) + ")", "drop-operand")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, f"not ({txt(n.test)})", "negate")
            if not isinstance(n, ast.While):
                add(n.test, "True", "if-true")
            add(n.test, "False", "if-false")
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete)) and not isinstance(getattr(n, "value", None), (ast.Constant, ast.Yield)):
            add(n, "pass", "drop-stmt")
        if isinstance(n, ast.Continue):
            add(n, "break", "continue-break")
        if isinstance(n, ast.Break):
            add(n, "continue", "break-continue")
        if isinstance(n, ast.Return) and n.value is not None and txt(n.value) not in ("None",):
            add(n, "return None", "return-none")
            if isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool):
                add(n, f"return {not n.value.value}", "return-flip")
        if isinstance(n, ast.Assign):
            if isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
                add(n, "pass", "drop-assign")
            elif not isinstance(n.value, ast.Constant):
                add(n.value, "None", "assign-none")
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    rest = [txt(a) for a in n.args] + [(f"{q.arg}=" if q.arg else "**") + txt(q.value) for q in n.keywords if q is not k]
                    add(n, f"{txt(n.func)}({', '.join(rest)})", "drop-kw")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("intersection", "union", "issubset", "issuperset", "difference"):
                alt = {"intersection": "union", "union": "intersection", "issubset": "issuperset", "issuperset": "issubset", "difference": "intersection"}[n.func.attr]
                add(n, f"{txt(n.func.value)}.{alt}({', '.join(txt(a) for a in n.args)})", "setop")
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            add(n, str(n.value + 1), "const")
            if n.value > 0:
                add(n, str(n.value - 1), "const")
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, str(not n.value), "bool")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"bool({txt(n.operand)})", "not")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            add(n, f"{txt(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {txt(n.right)}", "arith")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, txt(n.value), "slice")
        if EXTRA:
            extra(n)
        for k in kids:
            if not isinstance(k, (ast.Import, ast.ImportFrom)):
                walk(k)

    walk(ast.parse(src))
    if EXTRA:
        out = [o for o in out if o[3] in KINDS or o[3].startswith(("loop", "comp"))]
    seen = {}
    for a, b, new, kind, line in out:
        m = raw[:a] + new.encode() + raw[b:]
        try:
            compile(m, path, "exec")
        except SyntaxError:
            continue
        seen.setdefault(m, (a, b, raw[a:b].decode(), new, kind, line))
    return [(m,) + d for m, d in seen.items()]


def checks_for(rel):
    for k, v in MAP.items():
        if k in rel:
            return v.split()
    return ["C10"]


def one(arg):
    i, rel, m, old, new, kind, line = arg
    d = f"/tmp/mut/w/a{os.getpid()}_{i}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(BASE + "/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    with open(f"{d}/src/fedservice/{rel}", "wb") as f:
        f.write(m)
    os.makedirs(d + "/t")
    for t in ("test_05_constraints.py", "test_08_trust_mark_file_db.py"):
        shutil.copy(BASE + "/tests/" + t, d + "/t/")
    rec = {"i": i, "file": rel, "line": line, "kind": kind, "old": old[:200], "new": new[:200]}
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "."], cwd=d + "/t",
                       env={**os.environ, "PYTHONPATH": d + "/src", "PYTHONDONTWRITEBYTECODE": "1"}, capture_output=True, text=True)
    if "20 passed" not in r.stdout or "failed" in r.stdout:
        rec["by"] = "tests"
    else:
        rec["by"] = None
        for c in checks_for(rel):
            try:
                r = subprocess.run([V + "/check", c], env={**os.environ, "VF_REPO": d, "VF_EVIDENCE_DIR": d + "/ev", "VERIF_SEED": "1", "VF_SCALE": SCALE,
                                                           "VF_NOSHRINK": "1"}, capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                rec["by"] = c + ":timeout"
                break
            if r.returncode:
                rec["by"] = c if r.returncode == 1 else f"{c}:rc{r.returncode}"
                rec["msg"] = (r.stdout if r.returncode == 1 else r.stderr)[-300:] if r.returncode != 1 else r.stdout[:200]
                break
    shutil.rmtree(d, ignore_errors=True)
    return rec


if __name__ == "__main__":
    out, sample, seed, only = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    todo = []
    for root, _, files in os.walk(SRC):
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(root, f), SRC)
            if f.endswith(".py") and (not only or any(o in rel for o in only)):
                todo += [(rel, m, old, new, kind, line) for m, a, b, old, new, kind, line in mutants(os.path.join(root, f))]
    print(len(todo), "mutants")
    if sample:
        random.Random(seed).shuffle(todo)
        todo = todo[:sample]
    with ThreadPoolExecutor(int(os.environ.get("MUT_PAR", "6"))) as ex, open(out, "a") as f:
        for job in as_completed([ex.submit(one, (n,) + t) for n, t in enumerate(todo)]):
            rec = job.result()
            f.write(json.dumps(rec) + "\n")
            f.flush()
