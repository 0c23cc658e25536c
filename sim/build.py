"""Builds the simulator: /repo's current tree, instrumented, with the patched runtime and the harness."""
import json, os, re, subprocess, shutil, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("AXSIM_REPO", "/repo")


class BuildError(Exception):
    pass


def goenv(scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith("GO") or k in ("GOROOT", "GOMODCACHE", "GOPATH")}
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1",
               GOSUMDB="off", CGO_ENABLED="1", GOTMPDIR=scratch, GOCACHE=os.environ.get("AXSIM_GOCACHE") or os.path.join(scratch, "gocache"))
    return env


def run(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (what, p.stdout[-6000:]))
    return p.stdout


def patch_std(goroot, out):
    sys.path.insert(0, HERE)
    from patches import PATCHES
    rep = {}
    for rel, edits in PATCHES.items():
        src = os.path.join(goroot, "src", rel)
        s = open(src).read()
        for a, b in edits:
            if s.count(a) != 1:
                raise BuildError("patch anchor occurs %d times in %s: %r" % (s.count(a), rel, a[:60]))
            s = s.replace(a, b)
        dst = os.path.join(out, rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        open(dst, "w").write(s)
        rep[src] = dst
    for rel, f in (("runtime/time_fake.go", "time_fake.go"), ("runtime/axsim.go", "axsim.go"), ("syscall/axfault.go", "axfault.go")):
        p = os.path.join(HERE, "rt", f)
        if os.path.exists(p):
            rep[os.path.join(goroot, "src", rel)] = p
    return rep


def build(scratch, race=True):
    env = goenv(scratch)
    goroot = run(["go", "env", "GOROOT"], scratch, env, "go env").strip()
    inst = os.path.join(scratch, "instr")
    run(["go", "build", "-o", inst, "."], os.path.join(HERE, "instr"), env, "building the instrumenter")
    iout = os.path.join(scratch, "isrc")
    std = patch_std(goroot, os.path.join(scratch, "std"))
    exe = os.path.join(scratch, "harness")
    last = None
    for mode in ("full", "plain"):
        shutil.rmtree(iout, ignore_errors=True)
        os.makedirs(iout)
        run([inst, REPO, iout, mode], scratch, env, "instrumenting " + REPO)
        ov = json.load(open(os.path.join(iout, "overlay.json")))["Replace"]
        ov.update(std)
        ovf = os.path.join(scratch, "overlay.json")
        json.dump({"Replace": ov}, open(ovf, "w"))
        h = os.path.join(scratch, "hsrc")
        shutil.rmtree(h, ignore_errors=True)
        shutil.copytree(os.path.join(HERE, "harness"), h)
        gm = open(os.path.join(h, "go.mod")).read().replace("=> /repo", "=> " + REPO)
        open(os.path.join(h, "go.mod"), "w").write(gm)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(h, "go.sum"))
        cmd = ["go", "build", "-mod=mod", "-tags", "faketime", "-overlay", ovf, "-o", exe] + (["-race"] if race else []) + ["."]
        try:
            run(cmd, h, env, "building the simulator")
            return exe, os.path.join(iout, "sites.txt"), mode
        except BuildError as e:
            last = e
    raise last
