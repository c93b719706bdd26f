#!/usr/bin/env python3
"""Driver of the checks: check.py ID [quick|thorough] | build | replay FILE

Builds the symbolic executor and, from /repo's current tree, the native
harness runner; explores the harnesses of one property symbolically; replays
every counterexample and a sample of path models against the real build;
writes evidence/<ID>.json.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(ROOT, ".cache")
HARNESS = os.path.join(ROOT, "harness")
TAGS = "math_big_pure_go,purego,netgo,osusergo"
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", GOWORK="off")
ENV.setdefault("HOME", "/root")
if os.path.isdir("/opt/veriftools/go1.27.3/bin"):
    ENV["PATH"] = "/opt/veriftools/go1.27.3/bin:" + ENV.get("PATH", "")


def die(msg, code=3):
    print(msg, file=sys.stderr)
    sys.exit(code)


def run(cmd, **kw):
    return subprocess.run(cmd, env=kw.pop("env", ENV), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_engine():
    out = os.path.join(CACHE, "gosym")
    tmp = out + ".%d" % os.getpid()
    r = run(["go", "build", "-o", tmp, "."], cwd=os.path.join(ROOT, "engine"))
    if r.returncode:
        die("building the engine failed:\n" + r.stderr)
    os.replace(tmp, out)
    return out


def patched(src, subs):
    s = open(src).read()
    for old, new in subs:
        if old not in s:
            die("cannot patch %s: %r not found" % (src, old))
        s = s.replace(old, new, 1)
    return s


def go_root():
    return run(["go", "env", "GOROOT"]).stdout.strip()


def make_overlay(d):
    """Overlay used alike by the engine and by the native build."""
    rep = {}

    def add(target, text):
        f = os.path.join(d, "%d_%s" % (len(rep), os.path.basename(target)))
        with open(f, "w") as o:
            o.write(text)
        rep[target] = f

    # harness table
    names = []
    pdir = os.path.join(HARNESS, "p")
    for fn in sorted(os.listdir(pdir)):
        if fn.endswith(".go"):
            names += re.findall(r"^func (C\d+_\w+)\(\) \{", open(os.path.join(pdir, fn)).read(), re.M)
    tab = "package p\n\n// Harnesses lists every harness.\nfunc Harnesses() map[string]func() {\n\treturn map[string]func(){\n"
    tab += "".join('\t\t"%s": %s,\n' % (n, n) for n in names) + "\t}\n}\n"
    add(os.path.join(pdir, "zz_table.go"), tab)
    # the command-line client as an importable package
    cdir = os.path.join(REPO, "cmd/ofx")
    for fn in sorted(os.listdir(cdir)):
        if not fn.endswith(".go") or fn.endswith("_test.go"):
            continue
        s = open(os.path.join(cdir, fn)).read()
        s = re.sub(r"^package main\b", "package ofxcli", s, count=1, flags=re.M)
        t = re.sub(r"\b(?:time\.(Sleep|AfterFunc|After|NewTimer|Timer)|term\.(ReadPassword)|context\.(WithTimeout))\b", lambda m: "verifv." + (m[1] or m[2] or m[3]), s)
        if t != s:
            used = [x for x in ("time.Sleep", "term.ReadPassword", "context.Background") if re.search(r"\b%s\." % x.split(".")[0], s)]
            s = re.sub(r"^package ofxcli\b.*$", 'package ofxcli\n\nimport verifv "verif/harness/v"', t, count=1, flags=re.M)
            s += "".join("\nvar _ = %s\n" % x for x in used)
        add(os.path.join(HARNESS, "ofxcli", "c_" + fn), s)
    add(os.path.join(HARNESS, "ofxcli", "zz_main.go"), "package ofxcli\n\n// Main is the command's main function.\nfunc Main() { main() }\n")
    # leaving, and files which are none
    g = go_root()
    f = g + "/src/os/proc.go"
    add(f, patched(f, [("func Exit(code int) {\n", "func Exit(code int) {\n\tif VerifExit != nil {\n\t\tVerifExit(code)\n\t}\n")])
        + "\n// VerifExit replaces leaving the process.\nvar VerifExit func(code int)\n")
    f = g + "/src/os/file.go"
    add(f, patched(f, [
        ("	testlog.Open(name)\n	f, err := openFileNolog", "	if VerifOpen != nil {\n\t\tv, err := VerifOpen(name, flag, perm)\n\t\tif err != nil {\n\t\t\treturn nil, &PathError{Op: \"open\", Path: name, Err: err}\n\t\t}\n\t\treturn &File{&file{name: name, verif: v}}, nil\n\t}\n	testlog.Open(name)\n	f, err := openFileNolog"),
        ("	return rename(oldpath, newpath)\n", "	if VerifRename != nil {\n\t\treturn VerifRename(oldpath, newpath)\n\t}\n	return rename(oldpath, newpath)\n"),
    ]) + """
// VerifFile stands in for an open file.
type VerifFile interface {
	Read(b []byte) (int, error)
	Write(b []byte) (int, error)
	Seek(offset int64, whence int) (int64, error)
	Sync() error
	Close() error
}

// VerifOpen, VerifRename and VerifRemove replace the file system.
var (
	VerifOpen   func(name string, flag int, perm FileMode) (VerifFile, error)
	VerifRename func(from, to string) error
	VerifRemove func(name string) error
)
""")
    f = g + "/src/os/file_unix.go"
    hook = "\tif f.verif != nil {\n\t\treturn f.verif.%s\n\t}\n"
    add(f, patched(f, [
        ("	pfd         poll.FD\n", "	verif       VerifFile\n	pfd         poll.FD\n"),
        ("func (f *File) seek(offset int64, whence int) (ret int64, err error) {\n", "func (f *File) seek(offset int64, whence int) (ret int64, err error) {\n" + hook % "Seek(offset, whence)"),
        ("func Remove(name string) error {\n", "func Remove(name string) error {\n	if VerifRemove != nil {\n\t\treturn VerifRemove(name)\n\t}\n"),
    ]))
    f = g + "/src/os/file_posix.go"
    add(f, patched(f, [
        ("	return f.file.close()\n", hook % "Close()" + "	return f.file.close()\n"),
        ("	n, err = f.pfd.Read(b)\n", hook % "Read(b)" + "	n, err = f.pfd.Read(b)\n"),
        ("	n, err = f.pfd.Write(b)\n", hook % "Write(b)" + "	n, err = f.pfd.Write(b)\n"),
        ("func (f *File) Sync() error {\n", "func (f *File) Sync() error {\n\tif f != nil && f.verif != nil {\n\t\treturn f.verif.Sync()\n\t}\n"),
    ]))
    # network hooks: the transports below the HTTP client and TLS connections
    f = g + "/src/net/http/roundtrip.go"
    add(f, patched(f, [("	return t.roundTrip(req)\n", "	if VerifRoundTrip != nil {\n\t\tif VerifTransport != nil {\n\t\t\tVerifTransport(t, req)\n\t\t}\n\t\treturn VerifRoundTrip(req)\n\t}\n\treturn t.roundTrip(req)\n")])
        + "\n// VerifRoundTrip replaces the network; VerifTransport is told the transport asked for it.\nvar (\n\tVerifRoundTrip func(*Request) (*Response, error)\n\tVerifTransport func(*Transport, *Request)\n\tVerifIdle func(*Transport)\n)\n")
    f = g + "/src/net/http/transport.go"
    add(f, patched(f, [("func (t *Transport) CloseIdleConnections() {\n", "func (t *Transport) CloseIdleConnections() {\n\tif VerifIdle != nil {\n\t\tVerifIdle(t)\n\t\treturn\n\t}\n")]))
    f = g + "/src/crypto/tls/tls.go"
    add(f, patched(f, [("	if netDialer.Timeout != 0 {\n", "	if VerifDial != nil {\n\t\tc, err := VerifDial(network, addr, config)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn &Conn{verif: c, conn: c}, nil\n\t}\n	if netDialer.Timeout != 0 {\n")])
        + "\n// VerifDial replaces the network.\nvar VerifDial func(network, addr string, config *Config) (net.Conn, error)\n")
    f = g + "/src/net/dial.go"
    add(f, patched(f, [("func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n", "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n	if VerifDial != nil {\n\t\treturn VerifDial(network, address)\n\t}\n")])
        + "\n// VerifDial replaces the network.\nvar VerifDial func(network, addr string) (Conn, error)\n")
    f = g + "/src/crypto/tls/conn.go"
    hook = "\tif c.verif != nil {\n\t\treturn c.verif.%s\n\t}\n"
    add(f, patched(f, [
        ("	conn        net.Conn\n", "	verif       net.Conn\n	conn        net.Conn\n"),
        ("func (c *Conn) Write(b []byte) (int, error) {\n", "func (c *Conn) Write(b []byte) (int, error) {\n" + hook % "Write(b)"),
        ("func (c *Conn) Read(b []byte) (int, error) {\n", "func (c *Conn) Read(b []byte) (int, error) {\n" + hook % "Read(b)"),
        ("func (c *Conn) Close() error {\n", "func (c *Conn) Close() error {\n" + hook % "Close()"),
        ("func (c *Conn) HandshakeContext(ctx context.Context) error {\n", "func (c *Conn) HandshakeContext(ctx context.Context) error {\n\tif c.verif != nil {\n\t\treturn nil\n\t}\n"),
    ]))
    f = g + "/src/unique/handle.go"
    add(f, patched(f, [("	typ := abi.TypeFor[T]()\n	if typ.Size", "	if verifMap != nil {\n\t\tverifMu.Lock()\n\t\tdefer verifMu.Unlock()\n\t\tif p, ok := verifMap[value]; ok {\n\t\t\treturn Handle[T]{p.(*T)}\n\t\t}\n\t\tp := &value\n\t\tverifMap[value] = p\n\t\treturn Handle[T]{p}\n\t}\n	typ := abi.TypeFor[T]()\n	if typ.Size")])
        + "\nvar (\n\tverifMu  isync.Mutex\n\tverifMap = map[any]any{}\n)\n")
    ov = os.path.join(d, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"), indent=1)
    return ov


# properties whose counterexamples the race detector confirms
RACE = {"C35"}


def build_native(d, ov, prop=""):
    out = os.path.join(d, "native")
    cmd = ["go", "build", "-overlay", ov, "-o", out]
    if prop in RACE:
        r = run(cmd + ["-race", "./cmd/native"], cwd=HARNESS, env=dict(ENV, CGO_ENABLED="1"))
        if r.returncode == 0:
            return out, ""
        print("no race detector: " + r.stderr[:300], file=sys.stderr)
    r = run(cmd + ["./cmd/native"], cwd=HARNESS)
    if r.returncode:
        return None, r.stderr
    return out, ""


def replay(native, harness, ins, free=False, timeout=60, **more):
    d = tempfile.mkdtemp(dir=os.path.dirname(native))
    try:
        r = subprocess.run([native], input=json.dumps({"Harness": harness, "Ins": ins or [], "Free": free}), cwd=d, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(ENV, TMPDIR=d, TZ="UTC", GORACE="halt_on_error=1 exitcode=66", **more))
    except subprocess.TimeoutExpired:
        return {"status": "violation", "msg": "no termination within %d s" % timeout, "obs": []}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    try:
        return json.loads(r.stdout)
    except ValueError:
        if r.returncode == 2 and ("fatal error" in r.stderr or "panic:" in r.stderr):
            return {"status": "violation", "msg": "the process died: " + r.stderr[:2000], "obs": []}
        if r.returncode == 66:
            places = re.findall(r"^  ([\w./*()\[\]-]+)\(\)$", r.stderr, re.M)
            return {"status": "violation", "msg": "data race: " + " / ".join(p for p in places if "ofxgo" in p)[:300] + "\n" + r.stderr[:3000], "obs": []}
        return {"status": "error", "msg": "exit %d: %s%s" % (r.returncode, r.stdout[:300], r.stderr[:1500]), "obs": []}


def confirm(native, j, prop):
    o = replay(native, j[1], j[2]["Ins"], j[0] == "c")
    if j[0] == "v" and prop in RACE:
        # schedules differ
        for i in range(8):
            if o["status"] == "violation":
                break
            o = replay(native, j[1], j[2]["Ins"], **({} if i % 2 else {"VERIF_SERIAL": "1"}))
    return o


def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"^finding: property=(\S+) match=/(.*?)/ (.*)$", l)
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def text_of(ins):
    """The inputs of a counterexample, readably."""
    parts, i, ins = [], 0, ins or []
    while i < len(ins):
        l = ins[i]["label"]
        j = i
        while j < len(ins) and ins[j]["label"] == l:
            j += 1
        vals = [x["value"] for x in ins[i:j]]
        if len(vals) > 1 and all(v < 256 for v in vals):
            parts.append("%s=%r" % (l, bytes(vals)))
        else:
            parts.append("%s=%s" % (l, ",".join(str(v) for v in vals)))
        i = j
    return " ".join(parts)


def check(prop, tier):
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    d = tempfile.mkdtemp(prefix="run-", dir=CACHE)
    try:
        return check_in(prop, tier, d, t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_in(prop, tier, d, t0):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = {"quick": 150, "thorough": 600}[tier]
    budget = int(os.environ.get("VERIF_BUDGET", budget))
    ov = make_overlay(d)
    out = os.path.join(d, "result.json")
    with cf.ThreadPoolExecutor(2) as ex:
        fn = ex.submit(build_native, d, ov, prop)
        engine = build_engine()
        cmd = [engine, "-prop", prop, "-tier", tier, "-dir", HARNESS, "-overlay", ov, "-out", out,
               "-budget", "%ds" % budget, "-seed", str(seed), "-j", str(os.cpu_count() or 4)]
        try:
            r = run(cmd, timeout=budget + 240)
        except subprocess.TimeoutExpired:
            die("the engine did not stop")
        native, err = fn.result()
    if r.returncode or not os.path.exists(out):
        die("the engine failed:\n%s%s" % (r.stdout[-2000:], r.stderr[-4000:]))
    if native is None:
        die("the native build failed:\n" + err)
    res = json.load(open(out))

    # path models against the real build
    jobs = [("s", h["name"], p) for h in res["harnesses"] for p in h["samples"] or []]
    jobs += [("v", h["name"], v) for h in res["harnesses"] for v in h["violations"] or []]
    jobs += [("c", h["name"], c) for h in res["harnesses"] for c in h.get("cut") or []]
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        outs = list(ex.map(lambda j: confirm(native, j, prop), jobs))
    validated, cut_runs, mismatches, samples, viols, spurious = 0, 0, [], [], [], []
    for (kind, h, p), o in zip(jobs, outs):
        if kind == "s":
            want = [(x["label"], x["value"]) for x in p["Obs"] or [] if not x["label"].startswith("reach:")]
            got = [(x["label"], x["value"]) for x in o["obs"] or [] if not x["label"].startswith("reach:")]
            if o["status"] == "ok" and want == got:
                validated += 1
                if len(samples) < 8 and len(p["Ins"] or []) > 0:
                    samples.append({"harness": h, "inputs": text_of(p["Ins"])[:400], "observed": dict((k, v[:200]) for k, v in want[:4])})
            elif o["status"] == "violation":
                viols.append((h, p, o))
            else:
                diff = [(a, b) for a, b in zip(want, got) if a != b][:1]
                mismatches.append({"harness": h, "inputs": text_of(p["Ins"])[:400], "status": o["status"], "msg": o["msg"][:300], "first_difference": diff})
        elif kind == "c":
            # a path the engine could not follow to its end: its solver model,
            # completed, is run natively
            cut_runs += 1
            if o["status"] == "violation":
                viols.append((h, {"Ins": o.get("ins") or p["Ins"]}, o))
        else:
            if o["status"] == "violation":
                viols.append((h, p, o))
            else:
                spurious.append({"harness": h, "claimed": p["Msg"][:300], "inputs": text_of(p["Ins"])[:400], "status": o["status"], "msg": o["msg"][:300]})

    # report
    known = [k for k in known_findings() if k[0] == prop]
    seen_known, lines, seen = set(), [], set()
    for h, p, o in viols:
        what = "%s %s: %s" % (h, text_of(p["Ins"]), o["msg"])
        k = next((k for k in known if k[1].search(what)), None)
        if k:
            seen_known.add(k[2])
            continue
        key = (h, o["msg"].split("\n")[0][:80])
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join(ROOT, "evidence", "replay-%s-%d.json" % (prop, len(lines) + 1))
        json.dump({"property": prop, "Harness": h, "Ins": p["Ins"], "message": o["msg"]}, open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print("%s: %s" % (h, o["msg"].split("\n")[0][:500]))
        print("  inputs: %s" % text_of(p["Ins"])[:1000])
    for l in lines:
        print(l)
    for _, _, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))

    hs, tot = [], {}
    for h in res["harnesses"]:
        s = h["stats"]
        for k, v in s.items():
            tot[k] = tot.get(k, 0) + v
        hs.append({"harness": h["name"], "bounds": h["bounds"], "exhausted_within_bounds": h["complete"], "paths": s["Paths"],
                   "infeasible_paths": s["Infeasible"], "cut_paths": s["Limited"], "approximated_paths": s["Approx"], "unknown_queries": s["Unknown"], "limits": h["why"],
                   "reached": h["reach"], "assertions": s["Asserts"], "assertions_by_solver": s["AssertQ"], "cpu_s": round(h["cpu_s"], 2)})
    complete = all(h["exhausted_within_bounds"] for h in hs)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("Paths", 0), "transitions": tot.get("Steps", 0),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no path with symbolic inputs sampled"}],
            "exhaustive": complete,
            "meaning": "states = execution paths of the real code followed to their end, each for a symbolic set of inputs; transitions = SSA instructions interpreted on them",
            "harnesses": hs,
            "solver": {"name": res["solver"], "queries": tot.get("Queries", 0), "sat": tot.get("Sat", 0), "unsat": tot.get("Unsat", 0), "unknown": tot.get("Unknown", 0),
                       "time_s": round(tot.get("SolverNs", 0) / 1e9, 2), "branches_decided_by_byte_truth_tables": tot.get("FastDec", 0), "assertions_discharged": tot.get("Asserts", 0)},
            "functions_encoded": {"by_package": res["functions_by_package"], "repo": res["repo_functions"]},
            "cut_path_models_run_natively": cut_runs, "trace_mismatches": mismatches[:10], "unconfirmed_counterexamples": spurious[:10],
            "packages_partly_initialised": res["init_skipped"],
            "times_s": {"load": res["load_s"], "init": res["init_s"], "explore": res["explore_s"]},
        },
        "assumptions": [
            "inputs beyond the bounds of each harness (see harnesses[].bounds) are outside the claim; a harness with exhausted_within_bounds=false was cut by its time budget or by a construct listed under limits",
            "library models of the engine (strings/bytes search, sync, reflect, time calendar arithmetic, decimal big.Rat, os files) stand for the real functions; sampled path models are replayed natively to validate them",
            "network, TLS handshake, clock and random source are stand-ins",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(lines),
    }
    tmp = os.path.join(ROOT, "evidence", ".%s.%d" % (prop, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", prop + ".json"))
    print("%s %s: %d paths, %d instructions, %d solver queries (%.1f s), %d traces validated, %d mismatches, %s, %.1f s"
          % (prop, tier, tot.get("Paths", 0), tot.get("Steps", 0), tot.get("Queries", 0), tot.get("SolverNs", 0) / 1e9, validated, len(mismatches),
             "complete within bounds" if complete else "bounds not exhausted", time.time() - t0))
    for h in hs:
        print("  %-34s paths=%d%s %s" % (h["harness"], h["paths"], "" if h["exhausted_within_bounds"] else " INCOMPLETE", ", ".join("%dx %s" % (n, w[:100]) for w, n in list(h["limits"].items())[:3])))
    for m in mismatches[:5]:
        print("  mismatch:", json.dumps(m)[:600])
    for m in spurious[:5]:
        print("  unconfirmed:", json.dumps(m)[:600])
    return 1 if lines else 0


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__, 2)
    os.makedirs(CACHE, exist_ok=True)
    if a[0] == "build":
        build_engine()
        d = tempfile.mkdtemp(prefix="run-", dir=CACHE)
        try:
            n, err = build_native(d, make_overlay(d))
            if n is None:
                die(err)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return 0
    if a[0] == "overlay":
        os.makedirs(a[1], exist_ok=True)
        print(make_overlay(a[1]))
        return 0
    if a[0] == "replay":
        j = json.load(open(a[1]))
        d = tempfile.mkdtemp(prefix="run-", dir=CACHE)
        try:
            n, err = build_native(d, make_overlay(d), j.get("property", ""))
            if n is None:
                die(err)
            print(json.dumps(replay(n, j["Harness"], j["Ins"]), indent=1))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return 0
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], tier)


sys.exit(main())
