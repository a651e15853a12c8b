"""Systematic source mutants, to find gaps in the checks (development only; no check uses it).

usage: mutate.py OUT.jsonl N [PATTERN ...]

Makes single-site mutants of the modules in TARGETS, keeps those that pass the repository's
tests, and runs the checks of the module (quick) one after another until one reports a
violation. Everything happens in scratch copies; /repo and /verif are only read.
Every N-th mutant is taken (deterministically); PATTERN limits the files.
"""
import ast, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGETS = {
    "parce/mutablestring.py": "C07 C08 C09",
    "parce/document.py": "C10 C09 C07 C08 C20 C18",
    "parce/treebuilder.py": "C04 C01 C03 C02 C05",
    "parce/treebuilderutil.py": "C04 C01 C03 C02",
    "parce/tree.py": "C11 C04 C01 C06",
    "parce/lexer.py": "C02 C14 C01",
    "parce/lexicon.py": "C14 C15 C02 C01",
    "parce/language.py": "C14 C22 C02",
    "parce/rule.py": "C14 C13",
    "parce/ruleitem.py": "C14 C24",
    "parce/regex.py": "C13",
    "parce/target.py": "C14 C02",
    "parce/transform.py": "C06 C05 C21",
    "parce/query.py": "C12",
    "parce/util.py": "C26 C16 C15 C07 C10 C17 C11 C22 C18 C04",
    "parce/work.py": "C05 C03 C23",
    "parce/validate.py": "C24", "parce/introspect.py": "C24",
    "parce/lang/python.py": "C25", "parce/lang/toml.py": "C25", "parce/lang/xml.py": "C25", "parce/lang/html.py": "C25", "parce/lang/scheme.py": "C27",
    "parce/lang/c.py": "C28", "parce/lang/javascript.py": "C28", "parce/lang/css.py": "C28 C19", "parce/lang/lilypond.py": "C28", "parce/lang/tex.py": "C28", "parce/lang/texinfo.py": "C28", "parce/lang/troff.py": "C28", "parce/lang/tcl.py": "C28", "parce/lang/bash.py": "C28",
    "parce/formatter.py": "C17 C19",
    "parce/theme.py": "C19 C17",
    "parce/css.py": "C19 C17",
    "parce/indent.py": "C20",
    "parce/docio.py": "C18",
    "parce/registry.py": "C22 C18",
    "parce/standardaction.py": "C26 C15 C12 C14 C17",
    "parce/out/html.py": "C17",
    "parce/lang/json.py": "C21", "parce/lang/csv.py": "C21", "parce/lang/ini.py": "C21", "parce/lang/numbers.py": "C21",
}
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}


def rules(source):
    """Yield mutants of the rules of a language: a rule left out, a part of a pattern left out."""
    tree = ast.parse(source)
    lines = source.splitlines(True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))
    raw = [l.encode() for l in lines]
    def off(line, col):
        return starts[line - 1] + len(raw[line - 1][:col].decode())
    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            s, e = span(n)
            yield s, e, "if 0: " + source[s:e], "rule"
            v = n.value.value
            if isinstance(v, ast.Tuple) and v.elts:
                s, e = span(v.elts[0])
                for i in range(s + 2, e - 1):
                    yield i, i + 1, "", "pattern"


def mutants(source):
    """Yield (start, end, replacement, description)."""
    tree = ast.parse(source)
    lines = source.splitlines(True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))
    raw = [l.encode() for l in lines]
    def off(line, col):
        return starts[line - 1] + len(raw[line - 1][:col].decode())
    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
    infunc = set()
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for n in f.body:
                infunc.update(ast.walk(n))
    for n in ast.walk(tree):
        if n not in infunc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            yield a, b, " {} ".format(SWAP[type(n.ops[0])]) + ("(" if "(" in source[a:b] else ""), "compare"
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            word = "and" if isinstance(n.op, ast.And) else "or"
            yield a, b, source[a:b].replace(word, "or" if word == "and" else "and"), "boolop"
            for v in n.values:  # drop an operand
                s, e = span(v)
                yield s, e, "True" if word == "and" else "False", "operand"
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            s, e = span(n)
            yield s, e, source[span(n.operand)[0]:e], "not"
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            a, b = span(n.left)[1], span(n.right)[0]
            seg = source[a:b]
            yield a, b, seg.replace("+", "-") if "+" in seg else seg.replace("-", "+"), "arith"
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            s, e = span(n)
            yield s, e, str(n.value + 1), "const"
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            s, e = span(n)
            yield s, e, str(not n.value), "bool"
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            s, e = span(n.test)
            yield s, e, "(not ({}))".format(source[s:e]), "cond"
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)) and n not in docs:
            s, e = span(n)
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.YieldFrom)):
                continue
            yield s, e, "pass", "delete"
        elif isinstance(n, (ast.Continue, ast.Break)):
            s, e = span(n)
            yield s, e, "pass", "delete"
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            s, e = span(n)
            yield s, e, "pass", "return"
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
            s, e = span(n.func)
            yield s, e, "max" if n.func.id == "min" else "min", "minmax"


def run(cmd, cwd, env, timeout):
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return "timeout", ""


def main():
    out, step = sys.argv[1], int(sys.argv[2])
    offset = int(os.environ.get("OFFSET", "0"))
    patterns = sys.argv[3:]
    base = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    repo, verif = base + "/repo", base + "/verif"
    shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns(".git"))
    shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
    env = dict(os.environ, PYTHONPATH=repo + ":" + verif, VERIF_REPO=repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUTF8="1")
    py = "/opt/venv/bin/python"
    try:
        for name, checks in TARGETS.items():
            if patterns and not any(p in name for p in patterns):
                continue
            path = os.path.join(repo, name)
            source = open(path, encoding="utf-8").read()
            for i, (s, e, new, kind) in enumerate(rules(source) if os.environ.get("RULES") else mutants(source)):
                if i % step != offset or source[s:e] == new:
                    continue
                changed = source[:s] + new + source[e:]
                line = source.count("\n", 0, s) + 1
                try:
                    compile(changed, name, "exec")
                except SyntaxError:
                    continue
                with open(path, "w", encoding="utf-8") as f:
                    f.write(changed)
                t = time.time()
                rc, _ = run([py, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "tests"], repo, env, 120)
                result = dict(file=name, line=line, kind=kind, old=source[s:e][:80], new=new[:80], text=source.splitlines()[line - 1].strip())
                if rc != 0:
                    result["killed"] = "tests"
                else:
                    for c in checks.split():
                        rc, o = run([py, "-W", "ignore", "-m", "mc.run", c, "--tier", "quick"], verif, env, 600)
                        if rc == 1 and "VIOLATION property=" + c in o:
                            result["killed"] = c
                            break
                        if rc != 0:
                            result.setdefault("odd", []).append([c, rc, o[-300:]])
                result["s"] = round(time.time() - t)
                with open(out, "a") as f:
                    f.write(json.dumps(result) + "\n")
            with open(path, "w", encoding="utf-8") as f:
                f.write(source)
    finally:
        shutil.rmtree(base, ignore_errors=True)


main()
