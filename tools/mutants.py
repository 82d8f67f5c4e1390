#!/usr/bin/env python3
"""mutants.py OUT.jsonl FRACTION FILE...: applies a random sample of the small changes listed by tools/mutate to
scratch copies of /repo and runs the quick checks of the properties anchored in the file until one reports a
violation. Writes one JSON line per change: killed by which check, invalid (does not build) or SURVIVED. The
survivors are read by hand: they are equivalent, outside every property, or show a gap in a check."""
import os, sys, json, subprocess, tempfile, shutil, random, threading, concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "cosmo/param.go": "C23 C09", "math/calc/deriv.go": "C24", "math/interpolate/cubic_interpolators.go": "C20",
    "math/interpolate/spline.go": "C20", "math/interpolate/search.go": "C19 C20",
    "math/interpolate/linear_interpolators.go": "C19", "math/interpolate/filter.go": "C21", "math/mat/mat.go": "C22",
    "math/mat/mat32.go": "C22", "math/rand/*": "C17", "math/sort/*": "C18", "render/box.go": "C05 C10 C06 C13 C07 C08",
    "render/density/*": "C05 C06 C13 C09 C07 C08", "render/geom/deriv.go": "C14 C13",
    "render/geom/grid.go": "C15 C16 C14 C05 C06 C13", "render/geom/tetra.go": "C15 C05 C06 C13",
    "render/geom/vec.go": "C16 C15 C05", "render/halo/radius.go": "C25 C23", "render/halo/*": "C25 C27", "render/hist.go": "C12 C11 C08 C27",
    "render/io/buffer.go": "C03 C04 C01", "render/io/config.go": "C10 C11 C09",
    "render/io/io.go": "C03 C04 C01 C02 C05 C27 C26", "render/io/output.go": "C09 C12 C26",
    "render/main/main.go": "C11 C10 C01 C02 C09 C12 C07 C05 C26 C27", "render/render.go": "C05 C06 C13 C07 C11 C27 C08",
}


def props(f):
    return (MAP.get(f) or MAP.get(os.path.dirname(f) + "/*") or "").split()


def main():
    out, frac, files = sys.argv[1], float(sys.argv[2]), sys.argv[3:]
    jobs, each = int(os.environ.get("JOBS", "2")), os.environ.get("EACH", "4")
    w0 = tempfile.mkdtemp(prefix="mutants-")
    subprocess.run(["go", "build", "-o", w0 + "/mutate", "."], cwd=V + "/tools/mutate", check=True,
                   env=dict(os.environ, GOFLAGS="", GOWORK="off"))
    rnd = random.Random(int(os.environ.get("MSEED", "1")))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["off"], d["text"]))
    todo = []
    for f in files:
        ms = [json.loads(l) for l in subprocess.run([w0 + "/mutate", f], cwd="/repo", stdout=subprocess.PIPE,
                                                    check=True).stdout.splitlines()]
        rnd.shuffle(ms)
        n = max(1, int(len(ms) * frac + 0.5))
        todo += [m for m in ms[:n] if (m["file"], m["off"], m["text"]) not in done]
    if os.environ.get("AGAIN"):  # the survivors of an earlier run
        todo = []
        for l in open(os.environ["AGAIN"]):
            d = json.loads(l)
            if not d["result"].startswith(("killed", "invalid")) and (d["file"], d["off"], d["text"]) not in done: todo.append(d)
    rnd.shuffle(todo)
    lock = threading.Lock()
    repos = []
    for j in range(jobs):
        subprocess.run(["git", "clone", "-q", "--shared", "/repo", "%s/r%d" % (w0, j)], check=True)
        repos.append("%s/r%d" % (w0, j))
    free = list(repos)

    def one(m):
        with lock: repo = free.pop()
        p = repo + "/" + m["file"]
        src = open(p, "rb").read()
        try:
            if src[m["off"]:m["off"] + m["len"]].decode(errors="replace")[:len(m["old"])] != m["old"][:m["len"]]:
                return  # the file has changed
            open(p, "wb").write(src[:m["off"]] + m["text"].encode() + src[m["off"] + m["len"]:])
            res = "SURVIVED"
            # A tenth of the cases of every check settles most changes.
            for prop, part in [(q, "0.1") for q in props(m["file"])] + [(q, "") for q in props(m["file"])]:
                e = dict(os.environ, VH_FRAC=part, VERIF_REPO=repo, VERIF_TIER="quick", VERIF_SEED="1", VH_STOP="1", VH_CASE="20s")
                try:
                    r = subprocess.run(["timeout", "-s", "TERM", "400", "python3", V + "/check.py", prop, "-j", each],
                                       cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                except Exception as ex:
                    res = "error " + str(ex)
                    break
                o = r.stdout.decode(errors="replace")
                if r.returncode == 1:
                    res = "killed " + prop
                    break
                if r.returncode != 0:
                    res = "invalid" if "go build" in o else "error %d %s" % (r.returncode, o[-200:])
                    break
            m["result"] = res
            with lock:
                open(out, "a").write(json.dumps(m) + "\n")
        finally:
            open(p, "wb").write(src)
            with lock: free.append(repo)
    try:
        with cf.ThreadPoolExecutor(jobs) as ex:
            list(ex.map(one, todo))
    finally:
        shutil.rmtree(w0, ignore_errors=True)


main()
