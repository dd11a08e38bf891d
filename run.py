#!/usr/bin/env python3
"""Build one property's check from /repo's current working tree and run it.

usage: run.py <property-id> [quick|thorough] [extra args for the check]

The harness sources under /verif/harness are laid over /repo/internal/verifmc
with a Go build overlay, so nothing is written in /repo.  Exit 0: held on
everything explored; exit 1 with a VIOLATION line: broken; anything else: no
answer (the tree or the harness does not build, or time ran out).
"""
import json, os, re, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")  # a copy only while the checks are developed


def goenv():
    env = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, check=True).stdout
        for kv in out.decode().split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                if k in ("PATH", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOCACHE", "GOMODCACHE", "GOPATH", "GOROOT", "GOSUMDB", "HOME"):
                    env[k] = v
    except Exception:
        pass
    env.setdefault("GOPROXY", "off")
    env.setdefault("GOTOOLCHAIN", "local")
    env.setdefault("GOFLAGS", "-mod=readonly -buildvcs=false")
    env["GOWORK"] = "off"
    return env


def overlay(tmp, extra=None):
    rep = {}
    h = os.path.join(ROOT, "harness")
    for d, _, fs in os.walk(h):
        for f in fs:
            if f.endswith(".go"):
                p = os.path.join(d, f)
                rep[os.path.join(REPO, "internal", "verifmc", os.path.relpath(p, h))] = p
    rep.update(extra or {})
    path = os.path.join(tmp, "overlay.json")
    with open(path, "w") as f:
        json.dump({"Replace": rep}, f)
    return path


def instrument(tmp, dirs, env):
    """Copies of the library's files with a scheduling point per statement."""
    out = os.path.join(tmp, "instr")
    os.makedirs(out)
    files = []
    for d in dirs:
        p = os.path.join(REPO, d)
        files += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(".go") and not f.endswith("_test.go")]
    r = subprocess.run(["go", "run", os.path.join(ROOT, "tools", "instr", "main.go"), out, *files], cwd=ROOT, env=dict(env, GO111MODULE="off", GOFLAGS=""), capture_output=True, text=True)
    if r.returncode != 0:
        print("instrumenting failed:\n" + r.stderr[-3000:])
        return None
    return dict(l.split("\t") for l in r.stdout.splitlines())


def build(tmp, pid, env, args=(), extra=None):
    ov = overlay(tmp, extra)
    out = os.path.join(tmp, "check")
    cmd = ["go", "build", "-overlay", ov, *args, "-o", out, "./internal/verifmc/" + pid.lower()]
    r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        print("build failed:\n" + r.stdout[-3000:] + r.stderr[-6000:])
        return None
    return out


def config(pid):
    try:
        with open(os.path.join(ROOT, "harness", pid.lower(), "check.json")) as f:
            return json.load(f)
    except FileNotFoundError:
        return {}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    env = goenv()
    env["VERIF_TIER"] = tier
    env["VERIF_ROOT"] = ROOT
    env.setdefault("VERIF_SEED", "1")
    env["VERIF_REPO"] = REPO
    cfg = config(pid)
    ev = os.path.join(ROOT, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    tmp = tempfile.mkdtemp(prefix="vmc-")
    try:
        extra = None
        if cfg.get("instrument"):
            extra = instrument(tmp, cfg["instrument"], env)
            if extra is None:
                return 2
        binp = build(tmp, pid, env, extra=extra)
        if not binp:
            return 2
        env["VERIF_TMP"] = tmp
        # Further programs of /repo the check drives.
        for name, spec in cfg.get("build", {}).items():
            out = os.path.join(tmp, name)
            flags = list(spec.get("flags", []))
            if spec.get("overlay"):
                ov = os.path.join(tmp, name + ".overlay.json")
                with open(ov, "w") as f:
                    json.dump({"Replace": {os.path.join(REPO, a): os.path.join(ROOT, b) for a, b in spec["overlay"].items()}}, f)
                flags += ["-overlay", ov]
            r = subprocess.run(["go", "build", *flags, "-o", out, spec["pkg"]], cwd=os.path.join(REPO, spec["dir"]), env=env, capture_output=True, text=True)
            if r.returncode != 0:
                print("build failed:\n" + r.stdout[-3000:] + r.stderr[-6000:])
                return 2
            env["VERIF_BIN_" + name.upper()] = out
        if cfg.get("race"):
            d = os.path.join(tmp, "race")
            os.makedirs(d)
            r = build(d, pid, env, ["-race"])
            if not r:
                return 2
            env["VERIF_BIN_RACE"] = r
        limit = 840 if tier == "quick" else 4 * 3600
        last = None
        for attempt in (1, 2):
            log = os.path.join(tmp, "err.txt")
            with open(log, "wb") as ef:
                try:
                    r = subprocess.run([binp, *sys.argv[3:]], cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=ef, timeout=limit)
                except subprocess.TimeoutExpired as e:
                    sys.stdout.write((e.stdout or b"").decode(errors="replace"))
                    print("no answer: time limit")
                    return 2
            out = r.stdout.decode(errors="replace")
            err = open(log, errors="replace").read()
            if r.returncode in (0, 1):
                sys.stdout.write(out)
                if err:
                    sys.stderr.write(err[-2000:])
                return r.returncode
            # A Go runtime fatal error (stack exhaustion, concurrent map write,
            # ...) in the code under test cannot be recovered in-process.
            m = re.search(r"^(fatal error: .*|runtime: goroutine stack exceeds.*|panic: .*|WARNING: DATA RACE)$", err, re.M)
            if not m:
                sys.stdout.write(out)
                print("no answer: exit %d\n%s" % (r.returncode, err[-3000:]))
                return 2
            if attempt == 2:
                rp = os.path.join(ROOT, "evidence", "replay", pid + "-crash.json")
                os.makedirs(os.path.dirname(rp), exist_ok=True)
                with open(rp, "w") as f:
                    json.dump({"property": pid, "key": m.group(1), "stderr": err[:8000]}, f, indent=1)
                with open(ev, "w") as f:
                    json.dump({"property": pid, "tier": tier, "seed": int(env["VERIF_SEED"]), "level": "model_checking",
                               "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [err[:1000]], "exhaustive": False},
                               "wall_s": 0.0, "violations": 1}, f)
                sys.stdout.write(out)
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                print("  key={%s}" % m.group(1))
                return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


sys.exit(main())
