"""python3 trials/run.py [--start N] [PATTERN ...]: each trial bug in a scratch copy, the property's own quick check against it"""
import fnmatch
import os
import shutil
import subprocess
import sys
import tempfile
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import BUGS                                                               # noqa


def apply(src, edits):
    for f, old, new in edits:
        p = os.path.join(src, "src", "legwork", f)
        text = open(p).read()
        if old not in text:
            return "text not found in %s: %r" % (f, old[:80])
        open(p, "w").write(text.replace(old, new))
    return None


def main():
    args, start = sys.argv[1:], 0
    if args[:1] == ["--start"]:
        start, args = int(args[1]), args[2:]
    pats = args or ["*"]
    work = tempfile.mkdtemp(prefix="trial-")
    log = open(os.environ.get("TRIAL_LOG", "/tmp/trials.log"), "a")
    try:
        for prop, name, edits in BUGS[start:]:
            if not any(fnmatch.fnmatch("%s/%s" % (prop, name), p) for p in pats):
                continue
            dst = os.path.join(work, "repo")
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(os.path.join(os.environ.get("TRIAL_REPO", "/repo"), "src"), os.path.join(dst, "src"), ignore=shutil.ignore_patterns("__pycache__", "tests", "*.egg-info"))
            err = apply(dst, edits)
            if err:
                out = "%s/%s NOT APPLIED %s" % (prop, name, err)
            else:
                t = time.time()
                r = subprocess.run(["/opt/venv/bin/python", "-m", "mc.run", prop, "quick"], cwd=os.path.dirname(HERE), env=dict(os.environ, MC_REPO=dst, MC_FAILFAST="1"), capture_output=True, text=True)
                fails = [l for l in r.stdout.splitlines() if l.startswith("FAILED")]
                out = "%s/%s %s rc=%d %.0f s %s" % (prop, name, "caught" if r.returncode == 1 and "VIOLATION property=" + prop in r.stdout else "MISSED", r.returncode, time.time() - t, fails[0][:150] if fails else "")
            print(out, flush=True)
            log.write(out + "\n")
            log.flush()
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
