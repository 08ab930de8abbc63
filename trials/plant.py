"""python3 trials/plant.py [PATTERN ...]: writes the planted bugs of seeds.py to seeded/ and verifies each one in a
scratch copy of /repo: the patch changes original lines, applies, the stable tests still pass, the demonstration
passes without and fails with it.  `--demo` checks the demonstrations only; `--check` also runs the property's check."""
import fnmatch
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from bugs import BUGS                                                               # noqa
from seeds import SEEDS                                                             # noqa
from blame import original                                                          # noqa
OUT = os.environ.get("PLANT_OUT", os.path.join(VERIF, "seeded"))
DEMO = '''#!/bin/bash
# exit 0 where the property holds; run with /repo (after its build) as the working directory
exec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def edits_of(seed):
    if isinstance(seed["what"], str):
        return next(e for p, n, e in BUGS if p == seed["property"] and n == seed["what"])
    return seed["what"]


def plant(seed):
    ident, lines = seed["id"], []
    edits = edits_of(seed)
    work = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(work, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        for name in ("src/legwork/_version.py",):
            if not os.path.exists(os.path.join(repo, name)) and os.path.exists("/repo/" + name):
                shutil.copy("/repo/" + name, os.path.join(repo, name))
        dst = os.path.join(OUT, ident)
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        shutil.copy(os.path.join(HERE, "demolib", "legdemo.py"), dst)
        with open(os.path.join(dst, "demo.py"), "w") as f:
            f.write("import legdemo\nfrom legdemo import *                                    # noqa\n" + seed["demo"])
        with open(os.path.join(dst, "demo.sh"), "w") as f:
            f.write(DEMO)
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        with open(os.path.join(dst, "meta.json"), "w") as f:
            json.dump({"property": seed["property"], "needs": seed["needs"], "what_it_breaks": seed["breaks"]}, f, indent=1)
            f.write("\n")

        def demo():
            r = subprocess.run(["bash", os.path.join(dst, "demo.sh")], cwd=repo, capture_output=True, text=True, timeout=280)
            return r.returncode, (r.stderr.strip().splitlines() or [""])[-1][:160]
        clean = demo()
        for f, old, new in edits:
            p = os.path.join(repo, "src", "legwork", f)
            text = open(p).read()
            assert old in text, (ident, "text not found", f)
            open(p, "w").write(text.replace(old, new))
        diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
        with open(os.path.join(dst, "patch.diff"), "w") as f:
            f.write(diff)
        orig, total = original(edits)
        bad = demo()
        ok = clean[0] == 0 and bad[0] != 0 and orig > 0
        lines.append("%s demo clean=%s patched=%s original lines %d of %d%s" % (ident, clean, bad, orig, total, "" if ok else "   <<<<<<"))
        if "--demo" not in sys.argv:
            # stable tests that exist without the data files: run from the scratch copy
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            env = dict(os.environ, PYTHONPATH=os.path.join(repo, "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", IPYTHONDIR=work + "/ip", JUPYTER_RUNTIME_DIR=work + "/jr", MPLCONFIGDIR=work + "/mpl")
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:cov", "--timeout=300", "--randomly-seed=0", "--randomly-dont-reorganize", "--nbmake", "--continue-on-collection-errors", "-rA", "src/legwork/tests", "docs/demos/TheRoleofEccentricity.ipynb"], cwd=repo, env=env, capture_output=True, text=True)
            passed = set()
            for l in r.stdout.splitlines():
                if l.startswith("PASSED "):
                    passed.add(l.split()[1])
            missing = []
            for b in base:
                mod, test = b.split("::")
                if mod.endswith(".ipynb"):
                    hit = any("TheRoleofEccentricity" in p for p in passed)
                else:
                    parts = mod.split(".")
                    hit = any(p.endswith("/%s.py::%s::%s" % (parts[-2], parts[-1], test)) for p in passed)
                if not hit:
                    missing.append(b)
            lines.append("%s stable tests lost: %s%s" % (ident, missing, "   <<<<<<" if missing else ""))
        if "--check" in sys.argv:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "mc.run", seed["property"], "quick"], cwd=VERIF, env=dict(os.environ, MC_REPO=repo), capture_output=True, text=True)
            lines.append("%s check rc=%d %s" % (ident, r.returncode, "caught" if "VIOLATION property=" + seed["property"] in r.stdout else "MISSED   <<<<<<"))
    except Exception as exc:
        lines.append("%s ERROR %r   <<<<<<" % (ident, exc))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("\n".join(lines), flush=True)


pats = [a for a in sys.argv[1:] if not a.startswith("-")] or ["*"]
with ThreadPoolExecutor(1 if "--check" in sys.argv else 4) as pool:
    list(pool.map(plant, [s for s in SEEDS if any(fnmatch.fnmatch(s["id"], p) for p in pats)]))
