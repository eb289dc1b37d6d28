#!/usr/bin/env python3
"""overlay.py REPO WORK OUT: the overlay under which the harness is built against REPO.

The module files of the repository are replaced by the harness's own (they may be missing), and
the two commands appear once more as packages that can be imported: same files, other package
clause, and a file that exports what the harness calls.
"""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(V, "harness")

def overlay(repo, work, names):
    """names: whether functions other than main are exported too."""
    rep = {f"{repo}/go.mod": f"{H}/repo.mod.txt", f"{repo}/go.sum": f"{H}/repo.sum.txt"}
    for cmd, pkg in (("gen_keys", "verifgen"), ("tecdsa", "verifnode")):
        d = f"{work}/{pkg}"
        os.makedirs(d, exist_ok=True)
        for f in glob.glob(f"{repo}/cmd/{cmd}/*.go"):
            if f.endswith("_test.go"):
                continue
            src = re.sub(r"^package\s+main\b", "package " + pkg, open(f).read(), count=1, flags=re.M)
            dst = f"{d}/{os.path.basename(f)}"
            open(dst, "w").write(src)
            rep[f"{repo}/cmd/{pkg}/{os.path.basename(f)}"] = dst
        rep[f"{repo}/cmd/{pkg}/zz_verif.go"] = f"{H}/export/{pkg}.main.txt"
        if names:
            rep[f"{repo}/cmd/{pkg}/zz_verif_names.go"] = f"{H}/export/{pkg}.names.txt"
    # locks of the code under test that the explorers can see waiting
    for f in glob.glob(f"{repo}/pkg/**/*.go", recursive=True):
        if f.endswith("_test.go"):
            continue
        src = open(f).read()
        new = re.sub(r'^((?:import)?[ \t]*)((?:[\w.]+[ \t]+)?)"sync"', lambda m: m[1] + (m[2] or "sync ") + '"verif/detrand/sync"', src, flags=re.M)
        if new != src:
            dst = f"{work}/pkg/{os.path.relpath(f, repo + '/pkg')}"
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            open(dst, "w").write(new)
            rep[f] = dst
    return {"Replace": rep}

if __name__ == "__main__":
    repo, work, out = sys.argv[1:4]
    json.dump(overlay(repo, work, True), open(out, "w"))
