"""Which trial bugs change lines of the original repository (not ones added by fix commits)"""
import difflib
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS                                                               # noqa
BASE = "8c7fb2b"


def blame(f, cache={}):
    if f not in cache:
        out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "--abbrev=10", "%s..HEAD" % BASE, "--", "src/legwork/" + f], capture_output=True, text=True).stdout
        cache[f] = [l.startswith("^") for l in out.splitlines()]
    return cache[f]


def original(edits):
    """(removed original lines, removed lines, hunks that touch no original line)"""
    orig = total = 0
    texts = {}
    for f, old, new in edits:
        text = texts.get(f) or open("/repo/src/legwork/" + f).read()
        texts[f] = text.replace(old, new)
    for f, new in texts.items():
        a = open("/repo/src/legwork/" + f).read().splitlines()
        for tag, i, j, _, _ in difflib.SequenceMatcher(None, a, new.splitlines(), autojunk=False).get_opcodes():
            if tag in ("replace", "delete"):
                total += j - i
                orig += sum(blame(f)[i:j])
    return orig, total


if __name__ == "__main__":
    for prop, name, edits in BUGS:
        print("%s/%s %d of %d" % ((prop, name) + original(edits)))
