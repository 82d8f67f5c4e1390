#!/usr/bin/env python3
"""check.py ID [--replay FILE] [--only GROUP] [--idx N] [-v]: builds the harness and gotetra from
/repo's working tree in a temporary directory and runs the check of one property."""
import os, sys, subprocess, tempfile, shutil, signal

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NEED_CLI = {"C01", "C02", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C16", "C26", "C27"}
NEED_RACE = {"C08"}
RACE_HARNESS = {"C28"}  # their cases run in processes instrumented by the race detector


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GONOSUMDB="*", GOFLAGS="-mod=readonly",
             GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def build(work, cli=True, race=False, vhrace=False):
    e = env()
    procs = []

    def go(args, cwd):
        procs.append((args, subprocess.Popen(["go", "build", "-buildvcs=false"] + args, cwd=cwd, env=e,
                                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    mod = os.path.join(work, "gotetra.mod")
    with open(os.path.join(REPO, "go.mod")) as f, open(mod, "w") as g:
        g.writelines(l for l in f if "phil-mansfield/table " not in l)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(work, "gotetra.sum"))
    # A copy of the harness' module files, so that /verif is never rewritten and the repository's
    # place can be chosen.
    hmod = os.path.join(work, "harness.mod")
    with open(os.path.join(ROOT, "harness", "go.mod")) as f, open(hmod, "w") as g:
        g.write(f.read().replace("=> /repo", "=> " + REPO)
                .replace("=> ./stubs", "=> " + os.path.join(ROOT, "harness", "stubs")))
    shutil.copy(os.path.join(ROOT, "harness", "go.sum"), os.path.join(work, "harness.sum"))
    go(["-modfile", hmod, "-o", os.path.join(work, "vh"), "."], os.path.join(ROOT, "harness"))
    if vhrace:
        go(["-race", "-modfile", hmod, "-o", os.path.join(work, "vh-race"), "."], os.path.join(ROOT, "harness"))
    if cli:
        go(["-modfile", mod, "-o", os.path.join(work, "cli"), "./render/main"], REPO)
    if race:
        go(["-race", "-modfile", mod, "-o", os.path.join(work, "cli-race"), "./render/main"], REPO)
    ok = True
    for args, p in procs:
        out = p.communicate()[0].decode(errors="replace")
        if p.returncode != 0:
            sys.stderr.write("go build %s failed:\n%s\n" % (" ".join(args), out))
            ok = False
    return ok


def main():
    args = sys.argv[1:]
    if not args:
        sys.exit("usage: check.py ID|--setup [options]")
    prop = args[0]
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        if prop == "--setup":
            sys.exit(0 if build(work, True, True, True) else 2)
        if not build(work, prop in NEED_CLI, prop in NEED_RACE, prop in RACE_HARNESS):
            sys.exit(2)
        cmd = [os.path.join(work, "vh"), "-prop", prop, "-tier", os.environ.get("VERIF_TIER", "quick"),
               "-seed", os.environ.get("VERIF_SEED", "1"), "-work", work, "-root", ROOT] + \
            [a.replace("--", "-") if a.startswith("--") else a for a in args[1:]]
        e = env()
        e.update(VH_CLI=os.path.join(work, "cli"), VH_RACE=os.path.join(work, "cli-race"),
                 VH_REPO=REPO, VH_WORK=work, VH_ROOT=ROOT)
        if prop in RACE_HARNESS:
            e["VH_WORKER"] = os.path.join(work, "vh-race")
        sys.stdout.flush()
        sys.exit(subprocess.call(cmd, env=e))
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
