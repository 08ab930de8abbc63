"""python3 trials/mutate.py FILE [--step K] [--from I] [--func NAME]: mechanical mutants of one module, each against the
quick checks of the properties its function is anchored in (stopping at the first that fails); prints those that survive"""
import argparse
import ast
import fnmatch
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "psd.py": [("*", "C16 C17 C24")],
    "utils.py": [("peters_*", "C11 C14"), ("get_a_*", "C11"), ("D_*", "C15"), ("F_*", "C15"), ("ensure*", "C09 C12 C13 C18"), ("*", "C11 C09 C14 C12")],
    "evol.py": [("determine_*", "C10"), ("evolve_f*", "C10 C09 C13"), ("get_t_*", "C12 C09"), ("t_merge*", "C12"), ("create*", "C13 C09 C08"), ("check*", "C23 C12 C13"), ("*", "C13 C12 C23 C09 C08 C18 C22")],
    "snr.py": [("*", "C18 C08 C20")],
    "strain.py": [("*", "C14 C15 C09")],
    "_logging.py": [("*", "C22")],
    "__init__.py": [("*", "C22 C11")],
    "visualisation.py": [("*", "C21 C22 C24")],
    "source.py": [("__getitem__", "C03 C23 C08"), ("copy", "C03"), ("save", "C04 C22"), ("from_file", "C04"), ("_read*", "C04"), ("_write*", "C04"),
                  ("create_harm*", "C19 C05"), ("find_ecc*", "C19 C05"), ("ecc_tol", "C05 C19"), ("gw_lum*", "C05 C19 C23"),
                  ("get_h_*", "C14 C15 C07 C08 C23"), ("get_merger*", "C12 C07 C06"), ("evolve_*", "C06 C07"),
                  ("get_source_mask", "C10 C23 C24"), ("plot_*", "C21 C22 C23"), ("set_g", "C14 C23 C05"), ("set_sc", "C01 C24"),
                  ("get_snr*", "C20 C07 C02 C08 C15 C23"), ("_undo*", "C23 C02"), ("wrapper", "C23 C02"),
                  ("__init__", "C23 C05 C09 C15 C24 C25 C01"), ("*", "C05 C01 C23 C03 C04 C25")],
}
SWAP = {"logical_and": "logical_or", "logical_or": "logical_and", "maximum": "minimum", "minimum": "maximum", "max": "min", "min": "max",
        "sin": "cos", "cos": "sin", "argmax": "argmin", "argmin": "argmax", "zeros": "ones", "any": "all", "all": "any", "ceil": "floor",
        "log10": "log", "sqrt": "abs", "repeat": "tile", "copy": "asarray"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}


def mutants(text):
    """(start, end, new text, function, description), positions as offsets"""
    tree = ast.parse(text)
    lines = text.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = text.encode()
    off = lambda line, col: starts[line - 1] + col
    span = lambda n: (off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset))
    src = lambda n: raw[slice(*span(n))].decode()
    out = []

    def visit(n, fn, quiet):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fn = n.name
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and getattr(n.func, "attr", getattr(n.func, "id", "")) in ("print", "debug", "info", "warning", "error", "format", "warn")):
            quiet = True
        add = lambda a, b, t, d: out.append((a, b, t, fn, n.lineno, d))
        if not quiet:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, b = span(n.left)[1], span(n.comparators[0])[0]
                mid = raw[a:b].decode()
                lead = mid[:len(mid) - len(mid.lstrip(" ("))] if False else None
                old = mid.strip()
                if "\n" not in mid and all(ch not in mid for ch in "()"):
                    add(a, b, " %s " % CMP[type(n.ops[0])], "%s -> %s" % (old, CMP[type(n.ops[0])]))
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                a, b = span(n.left)[1], span(n.right)[0]
                mid = raw[a:b].decode()
                op = mid.replace("\\", "").replace("(", "").replace(")", "").strip()
                if op and mid.count(op) == 1:
                    add(a, b, mid.replace(op, BIN[type(n.op)]), "%s -> %s" % (op, BIN[type(n.op)]))
            elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
                a, b = span(n)
                v = n.value
                new = str(not v) if isinstance(v, bool) else str(v + 1) if isinstance(v, int) else repr(v * 1.02 if v else 0.02)
                add(a, b, new, "%r -> %s" % (v, new))
            elif isinstance(n, ast.BoolOp):
                a, b = span(n.values[0])[1], span(n.values[1])[0]
                mid = raw[a:b].decode()
                w = "and" if isinstance(n.op, ast.And) else "or"
                if len(n.values) == 2 and mid.count(w) == 1:
                    add(a, b, mid.replace(w, "or" if w == "and" else "and"), w)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(*span(n), "(" + src(n.operand) + ")", "not dropped")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                add(*span(n), src(n.operand), "sign dropped")
            elif isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg and not (isinstance(n.func, ast.Attribute) and n.func.attr in ("array",)):
                        a, b = off(k.lineno, k.col_offset), off(k.end_lineno, k.end_col_offset)
                        rest = raw[b:]
                        strip = len(rest) - len(rest.lstrip(b" \n"))
                        if rest[strip:strip + 1] == b",":
                            b += strip + 1
                        add(a, b, "", "keyword %s dropped" % k.arg)
            elif isinstance(n, (ast.If, ast.IfExp)):
                add(*span(n.test), "True", "condition true")
                add(*span(n.test), "False", "condition false")
            elif isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load):
                a, b = span(n)
                add(b - len(n.attr), b, SWAP[n.attr], "%s -> %s" % (n.attr, SWAP[n.attr]))
            elif isinstance(n, (ast.Assign, ast.AugAssign)) and fn:
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(t, (ast.Attribute, ast.Subscript)) or isinstance(n, ast.AugAssign):
                    add(*span(n), "pass", "statement dropped")
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and fn:
                add(*span(n), "pass", "call dropped")
        skip = isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)
        if not skip:
            for c in ast.iter_child_nodes(n):
                visit(c, fn, quiet)
    visit(tree, "", False)
    good, seen = [], set()
    for m in out:
        new = raw[:m[0]] + m[2].encode() + raw[m[1]:]
        if new in seen or new == raw:
            continue
        seen.add(new)
        try:
            compile(new.decode(), "m", "exec")
        except SyntaxError:
            continue
        good.append((new, m[3], m[4], m[5]))
    return good


def main():
    p = argparse.ArgumentParser()
    p.add_argument("file")
    p.add_argument("--step", type=int, default=1)
    p.add_argument("--start", type=int, default=0)
    p.add_argument("--func", default="*")
    p.add_argument("--log", default="/tmp/mutants.log")
    p.add_argument("--list", action="store_true")
    a = p.parse_args()
    text = open("/repo/src/legwork/" + a.file).read()
    ms = [m for m in mutants(text) if fnmatch.fnmatch(m[1], a.func)][a.start::a.step]
    if a.list:
        print(len(ms))
        for m in ms:
            print(m[1:])
        return
    log = open(a.log, "a")
    work = tempfile.mkdtemp(prefix="mutant-")
    verif = os.path.join(work, "verif")            # a snapshot, so that editing goes on meanwhile
    shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns(".git", "seeded", "replay", "evidence"))
    try:
        for k, (new, fn, line, what) in enumerate(ms):
            dst = os.path.join(work, "repo")
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree("/repo/src", os.path.join(dst, "src"), ignore=shutil.ignore_patterns("__pycache__", "tests", "*.egg-info"))
            open(os.path.join(dst, "src", "legwork", a.file), "wb").write(new)
            props = next(v for pat, v in MAP[a.file] if fnmatch.fnmatch(fn, pat)).split()
            t, caught = time.time(), None
            for prop in props:
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "-m", "mc.run", prop, "quick"], cwd=verif, env=dict(os.environ, MC_REPO=dst, MC_FAILFAST="1"), capture_output=True, text=True, timeout=600)
                    if r.returncode:
                        caught = prop
                        break
                except subprocess.TimeoutExpired:
                    caught = prop + "(timeout)"
                    break
            log.write("%s %s:%d %s | %s | %s | %.0f s\n" % (caught or "SURVIVED", a.file, line, fn, what, text.split("\n")[line - 1].strip()[:100], time.time() - t))
            log.flush()
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
