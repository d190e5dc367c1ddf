#!/usr/bin/env python3
"""mkseed.py FILE: plants the bugs described in FILE (python: SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)])
in scratch copies, confirms each (builds, stable tests pass, demo fails with it and passes without) and keeps it in /verif/seeded."""
import sys, os, json, subprocess, tempfile, shutil
REPO = "/repo"
DEMO = '''#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp "$here/main.go" "$t/main.go"
cp "$repo/go.sum" "$t/go.sum"
cat > "$t/go.mod" <<X
module demo

go 1.23.1

require github.com/LazarenkoA/1c-language-parser v0.0.0

require github.com/pkg/errors v0.9.1 // indirect

replace github.com/LazarenkoA/1c-language-parser => $repo
X
cd "$t" && GOFLAGS=-mod=mod GOSUMDB=off timeout 250 go run .
'''
ENV = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOROOT="/opt/veriftools/go1.23.12", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
           GOCACHE="/root/.cache/go-build", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", CGO_ENABLED="1")
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def tests(d):
    r = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "5m", "./..."], d)
    ok = set()
    for l in r.stdout.splitlines():
        try: x = json.loads(l)
        except ValueError: continue
        if x.get("Action") == "pass" and x.get("Test"): ok.add(x["Package"] + "/" + x["Test"]); ok.add(x["Test"])
    return ok, r
def main():
    ns = {}; exec(open(sys.argv[1], encoding="utf8").read(), ns)
    only = set(sys.argv[2:])
    base = None; bad = 0
    for s in ns["SEEDS"]:
        if only and s["id"] not in only: continue
        out = "/verif/seeded/" + s["id"]
        d = tempfile.mkdtemp(prefix="seed-"); c = d + "/repo"
        try:
            sh(["cp", "-a", REPO, c], "/")
            sh(["git", "checkout", "-q", "--", "."], c)
            if base is None: base, _ = tests(c)
            for f, old, new in s["edits"]:
                p = c + "/" + f; t = open(p, encoding="utf8", newline="").read()
                if "\r\n" in t: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                if t.count(old) != 1: print(s["id"], "edit matches", t.count(old), "times:", old[:60]); bad += 1; break
                open(p, "w", encoding="utf8", newline="").write(t.replace(old, new))
            else:
                b = sh(["go", "build", "./..."], c)
                if b.returncode: print(s["id"], "does not build", b.stderr[:500]); bad += 1; continue
                ok, r = tests(c)
                if base - ok: print(s["id"], "tests fail:", sorted(base - ok)[:5]); bad += 1; continue
                diff = subprocess.run(["git", "diff"], cwd=c, capture_output=True).stdout
                os.makedirs(out, exist_ok=True)
                open(out + "/patch.diff", "wb").write(diff)
                open(out + "/demo.sh", "w").write(DEMO); os.chmod(out + "/demo.sh", 0o755)
                body = s["demo"]
                imports = s.get("imports", [])
                open(out + "/main.go", "w", encoding="utf8").write("package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n" + "".join('\t"%s"\n' % i for i in imports) +
                    "\n\t\"github.com/LazarenkoA/1c-language-parser/ast\"\n)\n\nfunc fail(f string, a ...any) {\n\tfmt.Printf(f+\"\\n\", a...)\n\tos.Exit(1)\n}\n\nvar _ = ast.NewAST\n\n" + body.strip() + "\n")
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), ensure_ascii=False, indent=1)
                w = sh(["bash", out + "/demo.sh"], c)
                n = sh(["bash", out + "/demo.sh"], REPO)
                if n.returncode != 0 or w.returncode == 0:
                    print(s["id"], "demo: clean", n.returncode, n.stdout[-300:], n.stderr[-300:], "patched", w.returncode, w.stdout[-300:]); bad += 1
                    shutil.rmtree(out); continue
                if "[setup failed]" in w.stderr or "build failed" in w.stderr: print(s["id"], "demo does not build", w.stderr[-300:])
                print(s["id"], "ok:", w.stdout.strip()[-150:], w.stderr.strip()[-80:])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    print("bad:", bad)
main()
