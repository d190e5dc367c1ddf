#!/opt/veriftools/pyenv/bin/python3
"""check.py Cxx: decides one property of /repo's current tree.
   Proof obligations are generated from the SSA form of the current sources and discharged by z3, function by function;
   a failed obligation is turned into a concrete failing input by a search against the real code where one is found."""
import sys, os, json, time, subprocess, multiprocessing, threading, tempfile, shutil, signal, traceback, base64
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "vc"))
sys.setrecursionlimit(20000)
import dump as D

T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CPUS = max(2, min(8, os.cpu_count() or 8))
RETRY_LIMIT = 640 if TIER == "quick" else 4000
PROOF_LIMIT = 480 if TIER == "quick" else 3000
EVID = os.path.join(VERIF, "evidence")

def log(*a): print(*a, file=sys.stderr, flush=True)

# ------------------------------------------------------------------ the search against the real code
class Search:
    def __init__(self, prop):
        self.prop = prop; self.dir = tempfile.mkdtemp(prefix="verif-")
        self.special = "asan" if prop == "C18" else "race"      # the instrumented build that is searched as well
        self.res = []; self.fail = None; self.err = None; self.bin = None; self.race = None
    def env(self):
        e = D.env23(); e["GOFLAGS"] = "-mod=mod"; e["GOSUMDB"] = "off"
        return e
    def build(self, race=False):
        src = os.path.join(self.dir, "src")
        if not os.path.exists(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            p = os.path.join(src, "go.mod")
            t = open(p).read().replace("=> /repo", "=> " + D.REPO)
            open(p, "w").write(t)
        out = os.path.join(self.dir, "h-" + self.special if race else "h")
        r = subprocess.run(["go", "build"] + (["-" + self.special] if race else []) + ["-o", out, "."], cwd=src, env=self.env(), capture_output=True, text=True)
        if r.returncode != 0:
            self.err = "the search program does not build against the current tree: " + r.stderr[-1500:]
            return None
        return out
    def run(self, binary, seed, ms, sysms, limit):
        cur = tempfile.mktemp(dir=self.dir)
        e = self.env(); e["GORACE"] = "halt_on_error=1 exitcode=66"; e["GOMEMLIMIT"] = "3GiB"
        try:
            p = subprocess.run([binary, "-prop", self.prop, "-seed", str(seed), "-ms", str(ms), "-sysms", str(sysms), "-current", cur],
                               env=e, capture_output=True, text=True, errors="replace", timeout=limit)
        except subprocess.TimeoutExpired:
            return None
        try: r = json.loads(p.stdout.strip().splitlines()[-1])
        except Exception: r = None
        if p.returncode in (0, 3) and r is not None: return r
        # the process died: the input it was trying is the candidate
        try: data = open(cur, "rb").read()
        except OSError: data = b""
        kind = "race" if p.returncode == 66 else "asan" if binary == self.race else "crash"
        return {"property": self.prop, "evaluations": 1, "distinct_nontrivial": 0, "samples": [], "systematic": 0, "systematic_complete": False,
                "fail": {"property": self.prop, "input": base64.b64encode(data).decode(), "text": data.decode("utf8", "replace"), "kind": kind,
                         "message": ("data race: " if kind == "race" else "the program dies (exit %d): " % p.returncode) + p.stderr[:1500]}}
    def confirm(self, f):
        """the failing input fails again in a fresh process"""
        path = os.path.join(self.dir, "again.json")
        json.dump(f, open(path, "w"))
        n = 3 if f["kind"] in ("race",) else 1
        for _ in range(n):
            b = self.race if f["kind"] in ("race", "asan") and self.race else self.bin
            e = self.env(); e["GORACE"] = "halt_on_error=1 exitcode=66"; e["GOMEMLIMIT"] = "3GiB"
            try: p = subprocess.run([b, "-replay", path], env=e, capture_output=True, timeout=60)
            except subprocess.TimeoutExpired: return f["kind"] == "hang"
            if p.returncode != 0: return True
        return f["kind"] == "race"
    def go(self, rounds):
        """rounds: list of (seed, ms, sysms, race)"""
        try:
            self.bin = self.bin or self.build()
            if self.bin is None: return
            for seed, ms, sysms, race in rounds:
                b = self.bin
                if race:
                    self.race = self.race or self.build(True)
                    if self.race is None: self.err = None; continue
                    b = self.race
                r = self.run(b, seed, ms, sysms, limit=(ms + sysms) / 1000 + 120)
                if r is None: continue
                self.res.append(r)
                f = r.get("fail")
                if f and self.fail is None:
                    if self.confirm(f): self.fail = f
                if self.fail: return
        except Exception:
            self.err = traceback.format_exc()[-1500:]
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

# ------------------------------------------------------------------ proof units in worker processes
def worker(conn, w, unit):
    try:
        import units as U
        t0 = time.time()
        E = U.new_engine(w, unit.engine)
        obls = unit.run(E)
        conn.send(("ok", [(o.fn, o.kind, o.what, o.line, bool(o.ok), o.detail if not o.ok else "", o.t, tuple(o.props)) for o in obls], time.time() - t0, getattr(E, "nq", 0)))
    except BaseException:
        conn.send(("err", traceback.format_exc()[-3000:], 0, 0))
    conn.close()
    os._exit(0)

def run_units(w, us, deadline, stop=lambda rs: False):
    todo = sorted(us, key=lambda u: -u.weight); running = []; results = {}
    slots = CPUS - 1
    ctx = multiprocessing.get_context("fork")
    while todo or running:
        while todo and len(running) < slots:
            u = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, w, u))
            p.start(); b.close()
            running.append((u, p, a, time.time()))
        time.sleep(0.02)
        for x in list(running):
            u, p, a, t = x
            msg = None
            try:
                if a.poll(): msg = a.recv()
                elif not p.is_alive() and not a.poll(): msg = ("err", "the prover process ended (exit %s)" % p.exitcode, 0, 0)
            except EOFError:
                msg = ("err", "the prover process ended (exit %s)" % p.exitcode, 0, 0)
            if msg is None and time.time() > deadline: msg = ("err", "not discharged within the time budget", time.time() - t, 0)
            if msg is not None:
                running.remove(x)
                if p.is_alive(): p.kill() if msg[0] == "err" else None
                p.join(5)
                results[u.name] = (u, msg)
        if stop(results):
            for u, p, a, t in running: p.kill()
            for u, p, a, t in running: p.join(5)
            break
    return results

def call_graph(d):
    g = {}
    for f in d["funcs"]:
        n = f["name"].split("$")[0]; out = g.setdefault(n, set())
        for b in f["blocks"]:
            for i in b["instrs"] or []:
                stack = [i]
                while stack:
                    x = stack.pop()
                    if isinstance(x, dict):
                        if x.get("k") == "func" and "n" in x: out.add(x["n"].split("$")[0])
                        stack.extend(x.values())
                    elif isinstance(x, list): stack.extend(x)
    return g

def as_part_of_callers(prop, us, rs, deadline, notes):
    """A helper whose contract no longer fits (its work may have moved to or from its callers) is proved as part of its
    callers: its contract is given up and the callers are proved again with its body. Returns the new results, or None."""
    import alias, units as U
    from sx import World
    contracts = {u.fn for u in us if u.kind == "contract"}
    may = {u.fn for u in us if u.kind == "contract" and u.optional and u.engine != "none"}
    failing = lambda m: m[0] == "err" or any(not o[4] and prop in o[7] for o in m[1])
    given, res = set(), dict(rs)
    for _ in range(4):
        bad = [u for u in us if u.name in res and u.fn not in given and failing(res[u.name][1])]
        if any(u.name not in res for u in us if u.fn not in given): return None
        if not bad: return {n: x for n, x in res.items() if x[0].fn not in given}, given
        if time.time() > deadline - 30: return None
        d0 = alias.load()[0]; g = call_graph(d0)
        def calls(f, through):
            seen, todo = set(), [f]
            while todo:
                for y in g.get(todo.pop(), ()):
                    if y not in seen:
                        seen.add(y)
                        if y in through or y not in contracts: todo.append(y)
            return seen
        cand = {u.fn for u in bad} & may
        for u in bad:
            if res[u.name][1][0] == "ok":
                for o in res[u.name][1][1]:
                    if not o[4] and o[1] == "precondition" and o[5].startswith("callee="): cand |= {o[5][7:].split(";")[0]} & may
        cand = {c for c in cand - given if c not in calls(c, given | {c})}
        leaves = {c for c in cand if not (calls(c, given) & cand)} or cand
        if not leaves: return None
        for c in sorted(leaves):
            if c not in calls(c, given | {c}): given.add(c)
        again = [u for u in us if u.fn not in given and (failing(res[u.name][1]) or calls(u.fn, given) & leaves or u.engine == "parse" and u.kind != "contract" and u.kind != "table" and calls("(*yyParserImpl).Parse", given) & leaves)]
        log("given up: %s; proving %d units again" % (sorted(given), len(again)))
        w = World(alias.load(tuple(given))[0])
        rs2 = run_units(w, again, deadline)
        res.update(rs2)
        for u in list(again):
            if u.name in rs2 and failing(rs2[u.name][1]):
                m = rs2[u.name][1]
                for o in ([("", "", m[1], 0, 0, "")] if m[0] == "err" else [o for o in m[1] if not o[4]][:2]): log("   still:", u.name, o[1], o[2][-300:], o[5][:200])
    return None

def write_json(path, x):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f: json.dump(x, f, ensure_ascii=False, indent=1)
    os.replace(tmp, path)

def known_findings(prop):
    """lines 'known: property=Cxx input=<base64> <what fails>'"""
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt"), encoding="utf8"):
            if l.startswith("known: property=%s " % prop):
                a = l.split(None, 3)
                out.append((a[2][len("input="):], a[3].strip() if len(a) > 3 else ""))
    except OSError: pass
    return out

def main(prop):
    import units as U
    s = Search(prop)
    base = [(SEED, 5000 if TIER == "quick" else 120000, 60000 if TIER == "quick" else 300000, False)]
    if prop == "C18": base = [(SEED, 4000 if TIER == "quick" else 120000, 20000, False), (SEED, 4000 if TIER == "quick" else 120000, 10000, True)]
    if prop == "C17": base = [(SEED, 3000 if TIER == "quick" else 60000, 40000, False), (SEED, 3000 if TIER == "quick" else 60000, 15000, True)]
    th = threading.Thread(target=s.go, args=(base,), daemon=True); th.start()
    obls = []; notes = []; fatal = None; per = {}; nq = 0
    try:
        import alias
        d, al = alias.load(); notes += al
        from sx import World
        w = World(d)
    except Exception as e:
        fatal = "the sources cannot be read: " + str(e)[-1500:]
        w = None
    if w is not None:
        us = [u for u in U.units() if prop in u.serves]
        missing = []
        for u in list(us):
            if u.kind == "contract" and u.fn not in w.funcs and u.optional:
                us.remove(u); missing.append(u.fn); notes.append("%s is not in the program: its callers are proved with what replaced it" % u.fn)
        found_at = [None]
        def stop(rs):
            if s.fail and found_at[0] is None: found_at[0] = time.time()
            if found_at[0] is None: return False
            bad = any(m[0] == "err" or any(not o[4] and prop in o[7] for o in m[1]) for _, m in rs.values())
            return bad or time.time() - found_at[0] > 100
        rs = run_units(w, us, T0 + PROOF_LIMIT, stop)
        def failing(m): return m[0] == "err" or any(not o[4] and prop in o[7] for o in m[1])
        if s.fail is None and any(failing(m) for _, m in rs.values()):
            th.join()
            r = as_part_of_callers(prop, us, rs, T0 + RETRY_LIMIT, notes) if s.fail is None else None
            if r is not None:
                rs, given = r
                us = [u for u in us if u.fn not in given]
                for n in sorted(given): notes.append("%s does not keep the contract written for it: it is proved as part of its callers, by its body" % n)
        for u in us:
            if u.name not in rs:
                notes.append("%s: stopped after a failing input was found" % u.name); continue
            _, m = rs[u.name]
            if m[0] == "err":
                obls.append((u.name, "unsupported", "the obligations of %s are generated and discharged" % u.name, None, False, m[1], m[2], (prop,)))
                per[u.name] = {"obligations": 0, "discharged": 0, "seconds": round(m[2], 2)}
            else:
                mine = [o for o in m[1] if prop in o[7]]
                obls += mine; nq += m[3]
                per[u.name] = {"obligations": len(mine), "discharged": sum(o[4] for o in mine), "seconds": round(m[2], 2), "kind": u.kind}
        if not obls: obls.append(("-", "cover", "the property has obligations", None, False, "no obligation was generated", 0, (prop,)))
    else:
        obls.append(("-", "unsupported", fatal, None, False, fatal, 0, (prop,)))
    th.join()
    failed = [o for o in obls if not o[4]]
    if failed and s.fail is None and s.bin:
        left = 820 - (time.time() - T0)
        log("%d obligations failed; searching for a failing input" % len(failed))
        for o in failed[:8]: log("  ", o[0], o[1], o[2], o[3], o[5][:300])
        n = 6; ms = int(min(60 if TIER == "quick" else 300, max(5, left - 60)) * 1000)
        if left > 70:
            ts = []
            for k in range(n):
                t = threading.Thread(target=s.go, args=([(SEED * 1000 + 17 + k, ms, 1, prop == "C17" and k % 2 == 1)],), daemon=True); t.start(); ts.append(t)
            for t in ts: t.join()
    fail = s.fail
    kn = known_findings(prop)
    for inp, what in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if fail and any(inp == fail["input"] for inp, _ in kn): fail = None
    ev = sum(r["evaluations"] for r in s.res); dn = sum(r["distinct_nontrivial"] for r in s.res)
    samples = [x for r in s.res for x in r.get("samples") or []][:6]
    trusted = list(U.ASSUME_LEX) + list(U.ASSUME.get(prop, []))
    viol = bool(fail or failed)
    evidence = {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "proof",
        "coverage": {
            "obligations": len(obls), "discharged": sum(o[4] for o in obls),
            "checker_cmd": "python3-vt /verif/check.py %s" % prop,
            "trusted_base": trusted,
            "functions_under_contract": sorted(k for k in per if per[k].get("kind") == "contract"),
            "units": per, "back_end": "z3 (python bindings of the verification venv)", "solver_queries": nq,
            "solver_seconds": round(sum(o[6] for o in obls), 2),
            "kinds": {k: sum(1 for o in obls if o[1] == k) for k in sorted({o[1] for o in obls})},
            "failed": [{"function": o[0], "kind": o[1], "obligation": o[2], "line": o[3], "detail": o[5][:500]} for o in failed[:20]],
            "notes": notes,
            "bounded_search_evaluations": ev, "bounded_search_distinct": dn, "bounded_search_samples": samples,
            "bounded_search_note": "bounded, not counted as proved: the real code run on systematic and random inputs against the reference of the property; it checks the trusted models and turns failed obligations into failing inputs" + ("" if s.err is None else "; " + s.err),
        },
        "assumptions": trusted, "wall_s": round(time.time() - T0, 2), "violations": int(viol),
    }
    write_json(os.path.join(EVID, prop + ".json"), evidence)
    s.close()
    if not viol:
        print("%s holds: %d obligations discharged, %d inputs tried, %.0f s" % (prop, len(obls), ev, time.time() - T0))
        return 0
    path = os.path.join(EVID, "replay", prop + ".json")
    rep = {"property": prop, "failed_obligations": [{"function": o[0], "kind": o[1], "obligation": o[2], "line": o[3], "verifier_output": o[5][:3000]} for o in failed[:20]]}
    if fail:
        rep.update(fail); rep["how_to_replay"] = "python3-vt /verif/check.py --replay " + path
        write_json(path, rep)
        print("failing input: %r" % fail["text"][:500]); print(fail["message"][:1500])
        for o in failed[:5]: print("failed obligation: %s: %s: %s (%s)" % (o[0], o[1], o[2], o[3]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    else:
        write_json(path, rep)
        for o in failed[:10]: print("failed obligation: %s: %s: %s (%s) %s" % (o[0], o[1], o[2], o[3], o[5][:200]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    return 1

def replay(path):
    f = json.load(open(path))
    s = Search(f["property"])
    try:
        if "input" not in f:
            print(json.dumps(f, ensure_ascii=False, indent=1)); return 1
        s.bin = s.build(f.get("kind") in ("race", "asan"))
        p = subprocess.run([s.bin, "-replay", path], env=s.env(), capture_output=True, text=True)
        print(p.stdout, p.stderr)
        return 1 if p.returncode != 0 else 0
    finally: s.close()

if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
    try: rc = main(sys.argv[1])
    except SystemExit: raise
    except BaseException:
        traceback.print_exc()
        prop = sys.argv[1] if len(sys.argv) > 1 else "?"
        path = os.path.join(EVID, "replay", prop + ".json")
        try: write_json(path, {"property": prop, "failed_obligations": [], "error": traceback.format_exc()})
        except Exception: pass
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
