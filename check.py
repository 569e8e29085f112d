#!/usr/bin/env python3
"""Runs the check of one property.

  check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--keep]

1. builds the driver (harness/) against the working tree of /repo,
2. model checks the specifications the property is stated in (spec/),
3. lets specifications enumerate cases, adds random ones, runs them all against the real code,
4. replays the recorded histories in the specifications; what they do not allow is a violation.

Exit 0: held on everything explored, 1: violation (VIOLATION line), 2: the check itself failed.
"""
import argparse, json, os, re, shutil, subprocess, sys, time, random
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


class CheckError(Exception):
    pass


def go_env():
    env = dict(os.environ)
    env.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="",
               GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"))
    env["PATH"] = "/opt/veriftools/go1.25.14/bin:" + env.get("PATH", "")
    env.pop("GOROOT", None)
    env.pop("GOFLAGS_EXTRA", None)
    if not os.access("/root/.cache", os.W_OK):
        env["GOCACHE"] = os.path.join(HERE, ".work", "gocache")
    return env


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)


def build(work, race=False, cli=False):
    """The driver, built from a copy of harness/ (go may touch go.mod and go.sum) against /repo."""
    src = os.path.join(work, "harness")
    shutil.copytree(os.path.join(HERE, "harness"), src)
    mod = open(os.path.join(src, "go.mod")).read()
    mod = re.sub(r"replace github.com/ryanolee/go-chaff => \S+", "replace github.com/ryanolee/go-chaff => " + REPO, mod)
    open(os.path.join(src, "go.mod"), "w").write(mod)
    env = go_env()
    out = os.path.join(work, "driver-race" if race else "driver")
    cmd = ["go", "build", "-o", out]
    if race:
        env["CGO_ENABLED"] = "1"
        cmd.insert(2, "-race")
    r = sh(cmd + ["."], 600, cwd=src, env=env)
    if r.returncode != 0:
        raise CheckError("the driver does not build:\n" + r.stderr[-4000:])
    if cli:
        r = sh(["go", "build", "-mod=readonly", "-o", os.path.join(work, "go-chaff"), "./cli"], 600, cwd=REPO, env=env)
        if r.returncode != 0:
            raise CheckError("the cli does not build:\n" + r.stderr[-4000:])
    return out


def tlc(module, cfg, work, env=None, timeout=800, workers=1, heap="2g", extra=()):
    """Runs TLC in a directory of its own. Returns (output, states generated, distinct states, ok)."""
    d = os.path.join(work, "tlc-%s-%d" % (cfg, random.getrandbits(48)))
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), d)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-nowarning", "-noTE", "-workers", str(workers),
           "-metadir", os.path.join(d, "states"), "-config", cfg + ".cfg", *extra, module + ".tla"]
    try:
        r = sh(cmd, timeout, cwd=d, env=e)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC did not finish %s/%s" % (module, cfg))
    out = r.stdout + r.stderr
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    shutil.rmtree(d, ignore_errors=True)
    return out, gen, dist, r.returncode == 0


class Run:
    def __init__(self, prop, tier, seed, keep):
        self.prop, self.tier, self.seed, self.keep = prop, tier, seed, keep
        self.t0 = time.time()
        self.work = os.path.join(HERE, ".work", "%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.events = self.generations = 0
        self.models, self.samples, self.violations, self.known = [], [], [], []
        self.notes = {}
        kf = json.load(open(os.path.join(HERE, "known-findings.json")))
        self.findings = [f for f in kf["findings"] if f["property"] == prop]

    # -- step 2
    def model(self, module, cfg=None, workers=4, timeout=800, expect_violation=None):
        cfg = cfg or module
        out, gen, dist, ok = tlc(module, cfg, self.work, workers=1 if expect_violation else workers, timeout=timeout)
        if expect_violation:  # a model that is wrong on purpose has to be refuted (several invariants might notice)
            if not re.search("(is|was|were) violated", out):
                raise CheckError("%s/%s: expected %r to be violated\n%s" % (module, cfg, expect_violation, out[-2000:]))
        elif not ok:
            raise CheckError("%s/%s does not hold on the specification itself:\n%s" % (module, cfg, out[-3000:]))
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "cfg": cfg, "distinct_states": dist, "states_generated": gen})

    def enumerate(self, module, cfg=None, timeout=800, env=None):
        """Lets a specification write cases."""
        cfg = cfg or module
        path = os.path.join(self.work, cfg + "-cases.ndjson")
        e = {"OUT": path, "TIER": self.tier}
        e.update(env or {})
        out, gen, dist, ok = tlc(module, cfg, self.work, env=e, workers=4, timeout=timeout, heap="4g")
        if not ok or not os.path.exists(path):
            raise CheckError("%s/%s did not enumerate its cases:\n%s" % (module, cfg, out[-3000:]))
        self.states += dist
        self.transitions += gen
        n = sum(1 for _ in open(path))
        self.models.append({"module": module, "cfg": cfg, "cases_enumerated": n, "distinct_states": dist})
        return path

    # -- step 3
    def drive(self, cases=(), only=False, budget=500, race=False, cli=False, extra=(), prop=None):
        driver = build(self.work, race, cli)
        out = os.path.join(self.work, "out")
        allc = os.path.join(self.work, "all-cases.ndjson")
        with open(allc, "w") as f:
            for c in cases:
                f.write(open(c).read())
        cmd = [driver, "-prop", prop or self.prop, "-tier", self.tier, "-seed", str(self.seed), "-out", out, "-budget", str(budget)]
        if cases:
            cmd += ["-cases", allc]
        if only:
            cmd += ["-only"]
        env = dict(os.environ, VERIF_WORK=self.work, VERIF_CLI=os.path.join(self.work, "go-chaff"))
        if race:
            env.update(VERIF_RACE_LOG=os.path.join(self.work, "race"), GORACE="halt_on_error=0 exitcode=0 log_path=" + os.path.join(self.work, "race"))
        r = sh(cmd + list(extra), budget + 240, cwd=self.work, env=env)
        if r.returncode != 0:
            raise CheckError("driver failed (%d):\n%s\n%s" % (r.returncode, r.stdout[-2000:], r.stderr[-4000:]))
        print(r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "", flush=True)
        return out

    # -- step 4
    def validate(self, out, shards=4):
        """Replays every trace-<Spec>.ndjson of the driver in its specification."""
        results = {}
        for line in open(os.path.join(out, "results.ndjson")):
            r = json.loads(line)
            results[r["id"]] = r
            self.generations += r["n"]
        cases = {}
        for line in open(os.path.join(out, "cases.ndjson")):
            c = json.loads(line)
            cases[c["id"]] = c
        self.nontrivial = 0
        for f in sorted(os.listdir(out)):
            m = re.fullmatch(r"trace-(\w+)\.ndjson", f)
            if not m:
                continue
            spec = m.group(1)
            lines = [l for l in open(os.path.join(out, f)) if l.strip()]
            controls = [json.dumps(c) + "\n" for c in CONTROLS.get(spec, [])]
            parts = self.split(lines, shards)
            with ThreadPoolExecutor(shards) as ex:
                for bad in ex.map(lambda p: self.replay_shard(spec, p[0], p[1], controls), [(i, p) for i, p in enumerate(parts) if p]):
                    for tid, ev, why in bad:
                        self.report(spec, tid, ev, why, cases.get(tid.split("#")[0]), results.get(tid.split("#")[0]))
            self.traces += len(lines)
            pick = random.Random(self.seed).sample(range(len(lines)), min(3, len(lines)))
            for i in pick:
                tid = json.loads(lines[i])["id"]
                r, c = results.get(tid.split("#")[0], {}), cases.get(tid.split("#")[0], {})
                self.samples.append({"case": tid, "schema": c.get("schema"), "extra": c.get("extra"), "observed": (r.get("raw") or [])[:2] or json.loads(lines[i])})

    @staticmethod
    def split(lines, n):
        parts, sizes = [[] for _ in range(n)], [0] * n
        for l in lines:
            i = sizes.index(min(sizes))
            parts[i].append(l)
            sizes[i] += len(l) + 200
        return parts

    def replay_shard(self, spec, i, lines, controls):
        path = os.path.join(self.work, "shard-%s-%d.ndjson" % (spec, i))
        with open(path, "w") as f:
            f.writelines(lines + controls)
        out, gen, dist, ok = tlc(spec, spec, self.work, env={"TRACE": path, "TIER": self.tier}, heap="4g")
        m = re.search(r'<<\s*"REPLAYED",\s*(\d+),\s*"BAD",\s*\{(.*?)\}\s*>>\s*\n(?=\S|$)', out, re.S)
        if not ok or not m or int(m.group(1)) != len(lines) + len(controls):
            raise CheckError("%s could not replay the trace:\n%s" % (spec, out[-3000:]))
        self.states += dist
        self.transitions += gen
        bad = [(int(a), int(b), c) for a, b, c in re.findall(r'<<(\d+), (\d+), "([^"]*)">>', m.group(2))]
        # histories that are wrong on purpose have to be rejected, or the replay does not bind anything
        caught = {a for a, _, _ in bad}
        for j in range(len(controls)):
            if len(lines) + 1 + j not in caught:
                raise CheckError("%s accepted the corrupted control history %d" % (spec, j))
        return [(json.loads(lines[a - 1])["id"], b, c) for a, b, c in bad if a <= len(lines)]

    def report(self, spec, tid, ev, why, case, result):
        for f in self.findings:
            if f.get("status") == "open" and case is not None and f.get("case") == case.get("id"):
                if f["id"] not in self.known:
                    self.known.append(f["id"])
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]), flush=True)
                return
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        observed = None
        if result:
            observed = result["raw"][ev - 1] if why == "value" and 0 < ev <= len(result["raw"]) else result["raw"][:3]
        rec = {"property": self.prop, "spec": spec, "trace": tid, "event": ev, "why": why, "seed": self.seed, "case": case,
               "observed": observed, "errors": (result or {}).get("errors"), "note": (result or {}).get("note"), "crash": (result or {}).get("crash")}
        self.violations.append(rec)
        if len(self.violations) <= 20:
            json.dump(rec, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  %s event %d of %s: %s observed %s" % (why, ev, tid, json.dumps((case or {}).get("schema") or (case or {}).get("extra"))[:400], json.dumps(observed)[:300]), flush=True)

    def finish(self, level="model_checking", **cov):
        for f in self.findings:
            if f.get("status") == "open" and f["id"] not in self.known:
                print("note: known finding %s did not show up in this run" % f["id"])
        coverage = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                    "generations_run": self.generations, "models": self.models, "samples": self.samples[:8] or ["none"]}
        coverage.update(self.notes)
        coverage.update(cov)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": coverage,
              "assumptions": CHECKS[self.prop].get("assumptions", []), "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", self.prop + ".json"), "w"), indent=1)
        if not self.keep:
            shutil.rmtree(self.work, ignore_errors=True)
        print("%s %s: %s, %d histories, %d generations, %d states, %.1fs" % (
            self.prop, self.tier, "VIOLATED (%d)" % len(self.violations) if self.violations else "held", self.traces, self.generations, self.states, time.time() - self.t0))
        return 1 if self.violations else 0


_S = {"crash": "", "parse": "ok", "reported": False, "unsat": False, "wit": [], "out": [], "cover": [], "root": "r", "mayFail": False, "bound": False, "contract": {}}
_NULL = {"t": "null", "c": "n"}
_F = {"crash": "", "parse": "ok", "reported": False, "watched": True, "marks": [], "opened": [],
      "extra": {"mode": "text", "root": [], "cwd": ["w"], "enabled": True, "outside": False, "allowed": [{"form": "rel", "path": ["."]}], "refs": [{"form": "rel", "path": ["in.json"]}]}}
_FD = dict(_F["extra"], refs=[{"form": "rel", "path": ["lf.json"]}])
_H = {"crash": "", "parse": "ok", "reported": False, "marks": [["s", "leaf.json"]], "requests": [["s", "leaf.json"]],
      "extra": {"base": [], "via": "plain", "enabled": True, "insecure": False, "allowed": [{"site": "s", "form": "host"}], "refs": [{"form": "abs", "site": "s", "path": ["leaf.json"]}]}}
_HD = dict(_H["extra"], refs=[{"form": "abs", "site": "a", "path": ["leaf.json"]}])
_HR = dict(_H["extra"], refs=[{"form": "abs", "site": "s", "path": ["redirect-a"]}])
_D = {"crash": "", "parse": "ok", "reported": False, "watched": True, "must": True, "unseen": [], "strict": True, "root": "r", "edges": {"r": ["a"], "a": ["b", "r"], "b": ["a"]}, "fails": [], "asked": ["a", "b"],
      "docs": {"r": {"$ref": {"doc": "a", "path": ["$defs", "x"]}}, "a": {"$defs": {"x": {"type": ["null"]}}}, "b": {"$defs": {"x": {"type": ["boolean"]}}}}, "wit": [], "cover": [], "out": [_NULL]}
_B = {"crash": "", "reported": False, "vary": False, "soft": 5, "hard": 9, "docs": {"r": {}}, "root": "r", "vals": []}


def _E(*evs):
    return [{"e": e, "a": a, "b": b} for e, a, b in evs]


_LEAF, _A = {"k": "leaf", "c": []}, {"k": "tuple", "c": ["a", "leaf"]}
_G = {"crash": "", "reported": False, "depth": 2, "bypass": False, "cut": False, "graph": {"#": _A, "a": _A, "b": _LEAF}, "left": [0], "gens": []}
_N, _T, _TD = {"k": "null"}, {"k": "text", "w": ["cyclic"]}, {"k": "text", "w": ["depth"]}


def _R(*c):
    return {"k": "arr", "c": list(c)}


_RB = {"crash": "", "reported": False, "what": "budget", "base": 10, "soft": 10, "hard": 20, "points": []}
_RL = {"crash": "", "reported": False, "what": "not", "base": 10, "soft": 0, "hard": 0, "start": 0, "first": 12, "unit": 10, "per": 1, "phase": -1, "draws": 110, "found": False}


_GC, _GF = {"kind": "string", "lo": 3, "hi": 1}, {"kind": "string", "lo": 1, "hi": 3}
_RP = {"crash": "", "reported": True, "noticed": True, "pathless": False, "group": _GC, "at": ["property"], "second": [], "keys": [["properties", "a"]]}
_SH = {"crash": "", "events": []}


def _SV(key, out):
    return {"op": "value", "key": key, "out": out}


_CC = {"mode": "run", "input": "file", "schema": "good", "out": "", "format": False, "hosts": [], "insecure": False, "outside": False, "paths": []}
_CL = {"crash": "", "c": _CC, "limit": False, "flag": "", "n": 0, "count": 0, "refused": False, "exit": 0, "stdout": "value", "file": "absent", "stderr": False,
       "value": {"kind": "list", "l": [1, 5]}, "pretty": False, "requests": 0}

CONTROLS = {
    "CliTrace": [
        dict(_CL, id="control-exit", exit=1),
        dict(_CL, id="control-value", value={"kind": "list", "l": [1, 6]}),
        dict(_CL, id="control-format", pretty=True),
        dict(_CL, id="control-silent", c=dict(_CC, input="missing"), exit=1, stdout="none"),
        dict(_CL, id="control-overwritten", c=dict(_CC, out="existing"), exit=1, stdout="none", stderr=True, file="value"),
        dict(_CL, id="control-partial", c=dict(_CC, schema="malformed"), exit=1, stderr=True),
        dict(_CL, id="control-request", requests=1),
        dict(_CL, id="control-uninvited", c=dict(_CC, schema="httpRef", hosts=["host"]), exit=1, stdout="none", stderr=True, requests=1),
        dict(_CL, id="control-read", c=dict(_CC, schema="outRef", paths=["out"]), value={"kind": "secret", "l": []}),
        dict(_CL, id="control-depth", limit=True, flag="depth", n=3, count=6),
        dict(_CL, id="control-cycles", limit=True, flag="cycles", n=1, refused=True),
        dict(_CL, id="control-steps", limit=True, flag="steps", n=3, count=9),
        dict(_CL, id="control-cutoff", limit=True, flag="cutoff", n=3, count=9),
        dict(_CL, id="control-if", limit=True, flag="if", n=1, count=70),
    ],
    "ShareTrace": [
        dict(_SH, id="control-two", events=[_SV("a", "1"), _SV("a", "2")]),
        dict(_SH, id="control-later", events=[_SV("a", "1"), _SV("b", "2"), _SV("b", "2"), _SV("a", "2")]),
        dict(_SH, id="control-changed", events=[{"op": "kept", "key": "generator", "out": "changed"}]),
        dict(_SH, id="control-race", crash="data race", events=[_SV("a", "1")]),
    ],
    "ReportTrace": [
        dict(_RP, id="control-silent", reported=False, noticed=False, keys=[]),
        dict(_RP, id="control-unnoticed", noticed=False),
        dict(_RP, id="control-elsewhere", keys=[["properties", "k"]]),
        dict(_RP, id="control-above", keys=[["properties"]]),
        dict(_RP, id="control-also-elsewhere", keys=[["properties", "a"], ["items"]]),
        dict(_RP, id="control-one-of-two", second=["additional"]),
        dict(_RP, id="control-no-clash", group=_GF),
        dict(_RP, id="control-panic", crash="panic"),
    ],
    "RetryTrace": [
        dict(_RB, id="control-none", points=[[10, 0]]),
        dict(_RB, id="control-more", points=[[3, 11]]),
        dict(_RB, id="control-less", points=[[3, 9]]),
        dict(_RB, id="control-unscaled", points=[[15, 10]]),
        dict(_RB, id="control-cutoff", points=[[21, 2]]),
        dict(_RB, id="control-grow", points=[[13, 6], [14, 7]]),
        dict(_RL, id="control-attempts", draws=130),
        dict(_RL, id="control-lost", phase=90),
        dict(_RL, id="control-first", phase=0, base=1, draws=10),
        dict(_RL, id="control-scaled", soft=10, hard=10010, start=5010),
        dict(_RL, id="control-all", found=True),
    ],
    "BudgetTrace": [
        dict(_B, id="control-late", events=_E(("start", 10, 0), ("open", 1, 1))),
        dict(_B, id="control-few", events=_E(("start", 0, 0), ("open", 1, 2))),
        dict(_B, id="control-many", events=_E(("start", 5, 0), ("tick", 6, 0), ("open", 2, 1))),
        dict(_B, id="control-optional", events=_E(("start", 9, 0), ("tick", 10, 0), ("part", 2, 1))),
        dict(_B, id="control-early", events=_E(("start", 5, 0), ("cut", 0, 0), ("tick", 8, 0))),
        dict(_B, id="control-uncounted", events=_E(("start", 5, 0), ("tick", 5, 0))),
        dict(_B, id="control-choose", events=_E(("start", 10, 0), ("choose", 0, 0))),
        dict(_B, id="control-leaf", events=_E(("start", 5, 0), ("leaf", 0, 0), ("tick", 6, 0))),
        dict(_B, id="control-end", events=_E(("start", 5, 0), ("tick", 7, 0), ("end", 6, 6))),
        dict(_B, id="control-limits", events=_E(("start", 5, 0), ("end", 6, 5))),
        dict(_B, id="control-value", events=[], docs={"r": {"type": ["null"]}}, vals=[{"at": 4, "v": {"t": "bool", "c": "t"}}]),
        dict(_B, id="control-fixed", vary=True, events=_E(("start", 0, 0), ("open", 1, 1))),
        dict(_B, id="control-endless", events=[], crash="timeout"),
    ],
    "RefTrace": [
        dict(_G, id="control-followed", gens=[_R(_R(_R(_T, _N), _N), _N)]),
        dict(_G, id="control-refused", gens=[_R(_T, _N)]),
        dict(_G, id="control-reason", gens=[_R(_R(_TD, _N), _N)]),
        dict(_G, id="control-deep", bypass=True, gens=[_R(_R(_R(_R(_R(_TD, _N), _N), _N), _N), _N)]),
        dict(_G, id="control-shallow", bypass=True, gens=[_R(_R(_R(_TD, _N), _N), _N)]),
        dict(_G, id="control-null", gens=[_R(_N, _N)]),
        dict(_G, id="control-left", gens=[_R(_R(_T, _N), _N)], left=[1]),
    ],
    "RobustTrace": [
        {"id": "control-panic", "crash": "", "events": ["parsed", "panic"]},
        {"id": "control-crash", "crash": "the process ended", "events": []},
        {"id": "control-nothing", "crash": "", "events": ["parsed", "described"]},
        {"id": "control-unserialisable", "crash": "", "events": ["parsed", "described", "value", "not serialisable"]},
        {"id": "control-unparsed", "crash": "", "events": ["value"]},
    ],
    "DocTrace": [
        dict(_D, id="control-missing", asked=["a"]),
        dict(_D, id="control-twice", asked=["a", "b", "a"]),
        dict(_D, id="control-root", asked=["a", "b", "r"]),
        dict(_D, id="control-order", asked=["b", "a"]),
        dict(_D, id="control-value", out=[{"t": "bool", "c": "t"}]),
        dict(_D, id="control-fail", fails=["b"]),
        dict(_D, id="control-fail-value", fails=["b"], reported=True, out=[{"t": "bool", "c": "t"}]),
        dict(_D, id="control-parse", parse="error"),
        dict(_D, id="control-reported", reported=True, wit=[_NULL]),
    ],
    "HttpPolicyTrace": [
        dict(_H, id="control-none", requests=[]),
        dict(_H, id="control-twice", requests=[["s", "leaf.json"], ["s", "leaf.json"]]),
        dict(_H, id="control-reported", reported=True),
        dict(_H, id="control-silent", extra=_HD, requests=[], marks=[]),
        dict(_H, id="control-denied", extra=_HD, reported=True, requests=[["a", "leaf.json"]], marks=[]),
        dict(_H, id="control-redirected", extra=_HR, reported=True, requests=[["s", "redirect-a"], ["a", "d", "leaf.json"]], marks=[]),
        dict(_H, id="control-content", extra=_HR, reported=True, requests=[["s", "redirect-a"]], marks=[["a", "d", "leaf.json"]]),
        dict(_H, id="control-unreferenced", requests=[["s", "leaf.json"], ["s", "d", "leaf.json"]]),
    ],
    "FilePolicyTrace": [
        dict(_F, id="control-unread"),
        dict(_F, id="control-twice", opened=[["w", "in.json"], ["w", "in.json"]], marks=[["w", "in.json"]]),
        dict(_F, id="control-reported", opened=[["w", "in.json"]], marks=[["w", "in.json"]], reported=True),
        dict(_F, id="control-silent", extra=_FD),
        dict(_F, id="control-denied-read", extra=_FD, reported=True, opened=[["out", "o.json"]]),
        dict(_F, id="control-denied-used", extra=_FD, reported=True, marks=[["out", "o.json"]]),
        dict(_F, id="control-crash", opened=[["w", "in.json"]], marks=[["w", "in.json"]], crash="panic"),
    ],
    "SessionTrace": [
        dict(_S, id="control-value", docs={"r": {"type": ["null"]}}, out=[_NULL, {"t": "bool", "c": "t"}]),
        dict(_S, id="control-contract", docs={"r": {}}, out=[_NULL], bound=True, contract={"type": ["boolean"]}),
        dict(_S, id="control-unsat", docs={"r": {"never": True}}, unsat=True),
        dict(_S, id="control-sat", docs={"r": {"type": ["null"]}}, wit=[_NULL], reported=True),
        dict(_S, id="control-cover", docs={"r": {}}, out=[_NULL], cover=[{"type": ["boolean"]}]),
        dict(_S, id="control-crash", docs={"r": {}}, crash="panic"),
    ],
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.prop == "setup":  # warms the build caches and checks that the specifications parse
        work = os.path.join(HERE, ".work", "setup-%d" % os.getpid())
        os.makedirs(work)
        try:
            build(work)
        except CheckError as e:
            print(e, file=sys.stderr)
            sys.exit(2)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        sys.exit(0)
    run = Run(a.prop, a.tier, a.seed, a.keep)
    try:
        if a.replay:
            rec = json.load(open(a.replay))
            path = os.path.join(run.work, "replay.ndjson")
            case = rec["case"]
            case["samples"] = max(case.get("samples", 0), 2000)
            open(path, "w").write(json.dumps(case) + "\n")
            run.validate(run.drive([path], only=True))
        else:
            CHECKS[a.prop]["run"](run)
        sys.exit(run.finish())
    except CheckError as e:
        print("CHECK FAILED: %s" % e, file=sys.stderr)
        shutil.rmtree(run.work, ignore_errors=True) if not a.keep else None
        sys.exit(2)


if __name__ == "__main__":
    main()
