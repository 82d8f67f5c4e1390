#!/usr/bin/env python3
"""seed.py test [ID...]: takes planted changes under /verif/seeded through the conditions they must meet (patch
applies, touches only lines of the original repository, builds, stable tests pass, demo.sh passes without and fails
with the patch) in a scratch worktree of /repo, and then runs the check of their property against the patched copy.
Prints one line for each: ID PROPERTY gate=ok|... check=caught|MISSED|error. Results go to tools/seeded_results.json."""
import os, sys, subprocess, json, shutil, tempfile, concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
BASE = "c055a76"
M = "github.com/phil-mansfield/gotetra"


def run(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def goenv(w, repo):
    e = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off")
    os.makedirs(w + "/mod", exist_ok=True)
    with open(repo + "/go.mod") as f, open(w + "/mod/g.mod", "w") as g:
        g.writelines(l for l in f if "phil-mansfield/table " not in l)
    shutil.copy(repo + "/go.sum", w + "/mod/g.sum")
    e["GOFLAGS"] = "-mod=readonly -modfile=%s/mod/g.mod" % w
    return e


def original_lines(patch, repo):
    """Removed lines of the patch must come from the original commit."""
    bad = []
    f, ln = None, 0
    blame = {}
    for l in open(patch):
        l = l.rstrip("\n")
        if l.startswith("--- a/"):
            f = l[6:]
            out = run(["git", "blame", "-s", "-l", "--root", "HEAD", "--", f], repo)[1].splitlines()
            blame[f] = out
        elif l.startswith("@@"):
            ln = int(l.split()[1].split(",")[0][1:])
        elif f and l.startswith("-") and not l.startswith("---"):
            h = blame[f][ln - 1].split()[0].lstrip("^")
            if run(["git", "merge-base", "--is-ancestor", h, BASE], repo)[0] != 0:
                bad.append("%s:%d" % (f, ln))
            ln += 1
        elif f and l.startswith(" "):
            ln += 1
    return bad


def stable(repo, env, w):
    pk = [p for p in run(["go", "list", "-e", "./..."], repo, env)[1].split()
          if p not in (M + "/render/halo", M + "/render/scripts")]
    rc, out = run(["go", "build"] + pk, repo, env)
    if rc: return "build: " + out[-300:]
    for d in ("render/halo", "render/scripts"):
        rc, out = run(["bash", "-c", "gofmt -e %s >/dev/null" % d], repo, env)
        if rc: return "parse"
    base = json.load(open("/opt/vp/BASELINE.json"))
    rc, out = run(["go", "test", "-json", "-vet=off", "-count=1"] + pk, repo, env)
    ok = set()
    for l in out.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("Action") == "pass" and "Test" in d: ok.add(d["Test"])
    need = ["TestPyplotSavGol", "TestPyplotSpline", "TestSavGolKernel", "TestMedian", "TestQuick", "TestReverse",
            "TestShell"]
    miss = [n for n in need if n not in ok]
    return "tests: %s" % miss if miss else ""


def demo(d, repo, w):
    t = tempfile.mkdtemp(prefix="demo-", dir=w)
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            (shutil.copytree if os.path.isdir(d + "/" + f) else shutil.copy)(d + "/" + f, t + "/" + f)
    e = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
    return run(["bash", t + "/demo.sh"], repo, e, 300)


def one(i):
    d = os.path.join(S, i)
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed-")
    repo = w + "/repo"
    res = {"id": i, "property": meta["property"], "gate": "ok", "check": "-"}
    try:
        subprocess.run(["git", "clone", "-q", "--shared", "/repo", repo], check=True)
        env = goenv(w, repo)
        bad = original_lines(d + "/patch.diff", repo)
        if bad: res["gate"] = "not original: %s" % bad
        rc, out = demo(d, repo, w)
        if rc: res["gate"] = "demo fails unpatched: " + out[-600:]; return res
        rc, out = run(["git", "apply", d + "/patch.diff"], repo)
        if rc: res["gate"] = "apply: " + out; return res
        m = stable(repo, env, w)
        if m: res["gate"] = m; return res
        rc, out = demo(d, repo, w)
        res["demo"] = out[-300:]
        if rc == 0: res["gate"] = "demo passes patched: " + out[-300:]
        if "NOCHECK" in os.environ: return res
        e = dict(os.environ, VERIF_REPO=repo, VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        rc, out = run(["python3", V + "/check.py", meta["property"]], V, e)
        hits = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + meta["property"])]
        res["check"] = "caught" if rc == 1 and hits else "MISSED" if rc == 0 else "error rc=%d %s" % (rc, out[-300:])
        res["hits"] = len(hits)
        sites = sorted({l.split("site=")[1].split()[0] for l in out.splitlines() if "site=" in l})
        res["sites"] = sites[:8]
        return res
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ids = sys.argv[2:] or sorted(x for x in os.listdir(S) if os.path.isdir(S + "/" + x))
    allr = {}
    rp = V + "/tools/seeded_results.json"
    if os.path.exists(rp): allr = json.load(open(rp))
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "1"))) as ex:
        for r in ex.map(one, ids):
            print(r["id"], r["property"], "gate=" + r["gate"], "check=" + r["check"], r.get("hits", ""),
                  r.get("demo", "")[-160:].replace("\n", " | "), flush=True)
            allr[r["id"]] = {k: r[k] for k in ("property", "gate", "check") if k in r}
    json.dump(allr, open(rp, "w"), indent=1, sort_keys=True)


main()
