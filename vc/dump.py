"""Builds the SSA dumper (Go, x/tools from the module cache) and dumps /repo's current working tree."""
import json, os, subprocess, tempfile, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GO_DUMP = "/opt/veriftools/go1.27.3/bin/go"
GOROOT23 = "/opt/veriftools/go1.23.12"

def env23():
    e = dict(os.environ)
    e.update(PATH=GOROOT23 + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", GOROOT=GOROOT23,
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"),
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", CGO_ENABLED="1")
    return e

def build_dumper():
    src = os.path.join(VERIF, "dumper")
    out = os.path.join(VERIF, "build", "dumper")
    if os.path.exists(out) and all(os.path.getmtime(os.path.join(src, f)) <= os.path.getmtime(out) for f in ("main.go", "go.mod")):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    e = dict(os.environ)
    for k in ("GOROOT",): e.pop(k, None)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", GOWORK="off", GOMODCACHE="/root/go/pkg/mod",
             GOPATH="/root/go", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"))
    tmp = out + ".%d" % os.getpid()
    subprocess.run([GO_DUMP, "build", "-o", tmp, "."], cwd=src, env=e, check=True)
    os.replace(tmp, out)
    return out

def dump(pattern="./ast"):
    d = build_dumper()
    fd, out = tempfile.mkstemp(suffix=".json"); os.close(fd)
    try:
        r = subprocess.run([d, REPO, pattern, out], env=env23(), capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError("SSA dump failed: " + r.stderr[-2000:])
        with open(out) as f:
            return json.load(f)
    finally:
        os.unlink(out)
