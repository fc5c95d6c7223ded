#!/usr/bin/env python3
"""Solver-based check runner.

  python3 vp/run.py PROPERTY [--tier quick|thorough] [--only CASE] [--keep]

Every harness /verif/props/<PROPERTY>/*.c is compiled together with the real
sources of /repo's working tree (goto-cc), unrolled and handed to CBMC's SAT/SMT
back end.  Directives in the harness (lines starting with "//@"):

  link: src/a.c src/b.c     real translation units linked in
  unwind: N                 loop bound (unwinding assertions are always on)
  unwindset: f.0:3,...      extra loop bounds
  checks: bounds pointer overflow shift div   standard checks to turn on
  solver: cadical|minisat2|cvc5|z3
  flags: ...                other cbmc flags
  defs: -DX=1               compile flags common to all cases
  case: NAME [-DX ...] [unwind=N] [tier=thorough] [timeout=S] [solver=..]
  bound: text               stated bound (evidence)
  assume: text              assumption / stub (evidence)
  nowitness: reason         the harness ends early by design

Exit: 0 held; 1 VIOLATION (confirmed by native replay); 3 no answer.
"""
import os, sys, re, json, subprocess, time, shutil, hashlib, tempfile, random, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
INC = os.path.join(VERIF, "harness", "include")
CFLAGS = ["-std=c11", "-D_GNU_SOURCE", "-D_FILE_OFFSET_BITS=64", "-I" + INC, "-I" + REPO, "-I" + REPO + "/include",
          "-I" + REPO + "/include/dav1d", "-I" + REPO + "/tools"]
CHECKFLAGS = {"bounds": "--bounds-check", "pointer": "--pointer-check", "overflow": "--signed-overflow-check",
              "shift": "--undefined-shift-check", "div": "--div-by-zero-check", "leak": "--memory-leak-check",
              "primitive": "--pointer-primitive-check"}
SAN = {"bounds": "bounds", "overflow": "signed-integer-overflow", "shift": "shift-exponent", "div": "integer-divide-by-zero"}
TOTAL = float(os.environ.get("VP_TOTAL", "840"))
T0 = time.time()
STOP = threading.Event()
NPAR = int(os.environ.get("VP_JOBS", str(os.cpu_count() or 4)))
MEMLIM = int(os.environ.get('VP_MEM', '7')) << 30


class Case:
    pass


def parse_harness(path):
    d = {"link": [], "unwind": 20, "unwindset": "", "checks": [], "solver": "cadical", "flags": [], "defs": [],
         "case": [], "bound": [], "assume": [], "nowitness": "", "timeout": 300}
    for line in open(path, encoding="utf-8"):
        m = re.match(r"//@\s*([a-z]+):\s*(.*)", line)
        if not m:
            continue
        k, v = m[1], m[2].strip()
        if k in ("link", "checks", "flags", "defs"):
            d[k] += v.split()
        elif k in ("bound", "assume"):
            d[k].append(v)
        elif k == "case":
            d[k].append(v)
        elif k in ("unwind", "timeout"):
            d[k] = int(v)
        else:
            d[k] = v
    cases = []
    for cl in d["case"] or ["main"]:
        # {a..b} expansion:   case: s{0..7} -DSHAPE={}
        m = re.match(r"(\S*)\{(\d+)\.\.(\d+)\}(.*)", cl)
        lines = [cl]
        if m:
            lines = [m[1] + str(i) + m[4].replace("{}", str(i)) for i in range(int(m[2]), int(m[3]) + 1)]
        for l in lines:
            t = l.split()
            c = Case()
            c.__dict__.update({k: (v[:] if isinstance(v, list) else v) for k, v in d.items()})
            c.path = path
            c.prop = os.path.basename(os.path.dirname(path))
            c.name = os.path.basename(path)[:-2] + "." + t[0]
            c.cdefs = [x for x in t[1:] if x.startswith("-D")]
            c.tier = "quick"
            for x in t[1:]:
                if "=" in x and not x.startswith("-D"):
                    k, v = x.split("=", 1)
                    setattr(c, k, int(v) if k in ("unwind", "timeout") else v)
            cases.append(c)
    return cases


def sh(cmd, timeout=None, limit=True, **kw):
    def lim():
        import resource
        if limit:
            resource.setrlimit(resource.RLIMIT_AS, (MEMLIM, MEMLIM))
        os.setpgrp()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         preexec_fn=lim, **kw)
    end = time.time() + (timeout or 1e9)
    while True:
        try:
            out, _ = p.communicate(timeout=max(0.01, min(1.0, end - time.time())))
            return p.returncode, out
        except subprocess.TimeoutExpired:
            if time.time() < end and not (cmd[0] == "cbmc" and STOP.is_set()):
                continue
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return -99, out


def preprocess(src, out, defs):
    rc, txt = sh(["gcc", "-E", "-D__CPROVER__"] + CFLAGS + defs + [src])
    if rc:
        return txt
    # goto-cc 6.11 mistypes `T *const x` when x names the tag of T (union mv *const mv);
    # top-level pointer constness has no run-time meaning, so drop it.
    txt = re.sub(r"\*[ ]*const\b", "*", txt)
    open(out, "w").write(txt)
    return None


_objs = {}
_objlock = threading.Lock()


def build(c, work):
    """goto binary for a case; returns (path, error)"""
    srcs = [c.path, os.path.join(INC, "vp_main.c")] + [os.path.join(REPO, s) if not s.startswith("@") else os.path.join(VERIF, s[1:]) for s in c.link]
    objs = []
    for s in srcs:
        defs = c.defs + c.cdefs
        key = (s, tuple(defs))
        with _objlock:
            if key not in _objs:
                _objs[key] = [threading.Lock(), None, None]
            ent = _objs[key]
        with ent[0]:
            if ent[1] is None and ent[2] is None:
                base = os.path.join(work, hashlib.md5(repr(key).encode()).hexdigest()[:16])
                err = preprocess(s, base + ".i", defs)
                if not err:
                    rc, out = sh(["goto-cc", "-c", base + ".i", "-o", base + ".gb"], timeout=200)
                    if rc:
                        err = out
                ent[1], ent[2] = base + ".gb", err
        if ent[2]:
            return None, f"compiling {s}:\n{ent[2][-3000:]}"
        objs.append(ent[1])
    out = os.path.join(work, c.name + ".gb")
    rc, txt = sh(["goto-cc"] + objs + ["-o", out], timeout=200)
    if rc:
        return None, "linking:\n" + txt[-3000:]
    return out, None


def cbmc_cmd(c, gb, extra):
    cmd = ["cbmc", gb, "--no-standard-checks", "--unwind", str(c.unwind), "--unwinding-assertions",
           "--drop-unused-functions", "--verbosity", "8", "--no-malloc-may-fail"]
    if "--malloc-may-fail" in c.flags:
        cmd.remove("--no-malloc-may-fail")
    if "--slice-formula" not in c.flags and getattr(c, "slice", "1") == "1":
        cmd += ["--slice-formula"]
    us = dict(x.rsplit(":", 1) for x in c.unwindset.replace(" ", "").split(",") if x)
    us.update(extra)
    if us:
        cmd += ["--unwindset", ",".join(f"{k}:{v}" for k, v in us.items())]
    cmd += [CHECKFLAGS[k] for k in c.checks]
    cmd += {"cadical": ["--sat-solver", "cadical"], "minisat2": ["--sat-solver", "minisat2"], "cvc5": ["--cvc5"],
            "z3": ["--z3"]}.get(c.solver, [])
    return cmd + c.flags


RES = re.compile(r"^\[([^\]]+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", re.M)


def pinned(c, work, r):
    """The full query went unanswered.  Ask it again restricted to fixed input sequences: this can only find a
    counterexample (which is replayed like any other); it never turns an unanswered case into a held one."""
    for k in range(1, 7):
        left = TOTAL + 20 - (time.time() - T0)
        if STOP.is_set() or left < 5:
            return
        p = Case()
        p.__dict__.update(c.__dict__)
        p.cdefs = c.cdefs + ["-DVP_PIN=%d" % k]
        p.name = c.name + ".pin%d" % k
        gb, err = build(p, work)
        if err:
            return
        rc, out = sh(cbmc_cmd(p, gb, {}), timeout=min(60, left))
        bad = [x for x in RES.findall(out) if x[3] == "FAILURE" and "VP_WITNESS" not in x[2] and "unwind" not in x[0]]
        bad.sort(key=lambda x: 0 if "VP: " in x[2] else 1)
        for x in bad[:3]:
            if STOP.is_set():
                return
            ok, info = replay(p, gb, {}, x, work)
            r.setdefault("replays", []).append({"id": x[0], "desc": x[2], **info})
            if ok:
                r["status"], r["confirmed"], r["replay"] = "cex", True, info["path"]
                r["bad"] = [{"id": x[0], "line": x[1], "desc": x[2]}]
                STOP.set()
                return


def run_case(c, work, tier):
    t = time.time()
    r = run_case1(c, work, tier)
    if r["status"] in ("error", "timeout") and "compiling" not in r.get("detail", "") and tier == "quick":
        pinned(c, work, r)
        r["wall_s"] = round(time.time() - t, 2)
    return r


def run_case1(c, work, tier):
    t = time.time()
    r = {"case": c.name, "status": "error", "obligations": 0, "discharged": 0, "solver_s": 0.0, "witness": None}
    left = TOTAL - (t - T0)
    if STOP.is_set():
        r["status"], r["detail"] = "skipped", "a violation is already confirmed"
        return r
    if left < 5:
        r["status"], r["detail"] = "timeout", "no time left"
        return r
    gb, err = build(c, work)
    if err:
        r["detail"] = err
        r["wall_s"] = time.time() - t
        return r
    unwind = {}  # per-loop bounds raised because an unwinding assertion failed
    declared = dict(x.rsplit(":", 1) for x in c.unwindset.replace(" ", "").split(",") if x)
    for attempt in range(6):
        left = TOTAL - (time.time() - T0)
        to = min(left, c.timeout if tier == "quick" else c.timeout * 4)
        if to < 2:
            r["status"], r["detail"] = "timeout", "no time left"
            break
        rc, out = sh(cbmc_cmd(c, gb, unwind), timeout=to)
        r["solver_s"] += sum(float(x) for x in re.findall(r"Runtime (?:Solver|decision procedure): ([\d.e+-]+)s", out))
        m = re.findall(r"(\d+) variables, (\d+) clauses", out)
        if m:
            r["variables"], r["clauses"] = int(m[-1][0]), int(m[-1][1])
        if STOP.is_set() and rc != 10:
            r["status"] = "skipped"
            break
        if rc == -99:
            r["status"], r["detail"] = "timeout", f"no answer in {to:.0f}s"
            break
        res = RES.findall(out)
        if rc not in (0, 10) or not res:
            r["status"], r["detail"] = "error", f"cbmc exit {rc}: " + "\n".join(l for l in out.splitlines() if "nwinding" not in l)[-2000:]
            break
        nobody = sorted(set(re.findall(r"no body for (?:function|callee) '?([\w$]+)", out)))
        r["nobody"] = [n for n in nobody if not n.startswith("nondet")]
        wit = [x for x in res if "VP_WITNESS" in x[2]]
        unw = [x for x in res if ".unwind." in x[0] or "unwinding assertion" in x[2]]
        oth = [x for x in res if x not in wit and x not in unw]
        r["obligations"], r["discharged"] = len(oth) + len(unw), sum(x[3] == "SUCCESS" for x in oth + unw)
        r["unwind"] = {"default": c.unwind, **{k: int(v) for k, v in declared.items()}, **unwind}
        bad = [x for x in oth if x[3] != "SUCCESS"]
        ubad = [x for x in unw if x[3] != "SUCCESS"]
        if ubad and not [x for x in bad if "VP: " in x[2]]:
            if attempt == 5:
                r["status"], r["detail"] = "error", "unwinding assertions fail: " + str([x[0] for x in ubad][:4])
                break
            for x in ubad:
                m = re.match(r"(.*)\.unwind\.(\d+)$", x[0])
                k = f"{m[1]}.{m[2]}"
                unwind[k] = int(unwind.get(k, declared.get(k, c.unwind))) * 2 + 1
            continue
        reached = [x for x in wit if x[3] == "FAILURE"]
        r["witness"] = len(reached)
        if bad:
            r["status"] = "cex"
            r["bad"] = [{"id": x[0], "line": x[1], "desc": x[2]} for x in bad]
            # user assertions first
            bad.sort(key=lambda x: 0 if "VP: " in x[2] else 1)
            reproduced = None
            for x in bad[:6]:
                if STOP.is_set():
                    break
                ok, info = replay(c, gb, unwind, x, work)
                r.setdefault("replays", []).append({"id": x[0], "desc": x[2], **info})
                if ok:
                    reproduced = info
                    break
            r["confirmed"] = bool(reproduced)
            if reproduced:
                if not any(k[0] == c.name for k in known(c.prop)):
                    STOP.set()
                r["replay"] = reproduced["path"]
            break
        if not c.nowitness and (not wit or len(reached) != len(wit)):
            r["status"], r["detail"] = "error", "vacuous: a reachability witness was not reached: " + \
                ", ".join(x[2] for x in wit if x[3] != "FAILURE")
            break
        r["status"] = "held"
        r["witnesses"] = [x[0] for x in reached]
        if tier == "thorough" and reached:
            ok, info = replay(c, gb, unwind, reached[-1], work, expect_ok=True)
            r["trace_validated"] = (info.get("exit") == 0)
            r["trace_info"] = info
            if info.get("exit") in (42, 1):
                r["status"], r["detail"] = "error", "native run of the witness input fails: encoding and code disagree: %s" % info
        break
    r["wall_s"] = round(time.time() - t, 2)
    return r


def native(c, work):
    exe = os.path.join(work, c.name + ".exe")
    san = ["address"] + [SAN[k] for k in c.checks if k in SAN]
    srcs = [c.path, os.path.join(INC, "vp_main.c")] + [os.path.join(REPO, s) if not s.startswith("@") else os.path.join(VERIF, s[1:]) for s in c.link]
    cmd = ["gcc", "-g", "-O1", "-w", "-DVP_REPLAY", "-ffunction-sections", "-fdata-sections", "-fsanitize=" + ",".join(san),
           "-fno-sanitize-recover=all"] + CFLAGS + c.defs + c.cdefs + srcs + \
          ["-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-o", exe, "-lpthread", "-lm", "-ldl"]
    return exe, cmd


def replay(c, gb, unwind, x, work, expect_ok=False):
    cmd = cbmc_cmd(c, gb, unwind) + ["--property", x[0], "--trace", "--json-ui"]
    cmd[cmd.index("--verbosity") + 1] = "4"
    if "--slice-formula" in cmd:
        cmd.remove("--slice-formula")
    left = max(30, min(600, 890 - (time.time() - T0)))
    rc, out = sh(cmd, timeout=left)
    vals = []
    try:
        js = json.loads(out[out.index("["):])
        tr = None
        for e in js:
            for q in e.get("result", []) if isinstance(e, dict) else []:
                if q.get("trace"):
                    tr = q["trace"]
        for s in tr or []:
            if s.get("stepType") == "assignment" and s.get("lhs") == "vp_log" and "initialize" not in str(s.get("sourceLocation", {}).get("function", "__CPROVER_initialize")):
                b = s["value"].get("binary")
                vals.append(int(b, 2) if b else int(re.sub(r"[a-zA-Z]+$", "", s["value"]["data"])))
        if tr is None:
            return False, {"path": None, "note": "no trace"}
    except Exception as e:
        return False, {"path": None, "note": "trace: %r %s" % (e, out[-500:])}
    d = os.path.join(VERIF, "evidence", "replay", c.prop, c.name)
    if expect_ok:
        d = os.path.join(work, "wit-" + c.name)
    os.makedirs(d, exist_ok=True)
    vf = os.path.join(d, "input.txt")
    open(vf, "w").write("\n".join(map(str, vals)) + "\n")
    exe, ncmd = native(c, work)
    rcb, bout = sh(ncmd, timeout=300)
    if rcb:
        return False, {"path": d, "note": "native build: " + bout[-1500:]}
    rc, out = sh([exe, vf], timeout=60, limit=False, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=43:allocator_may_return_null=1"))
    note = out[-1500:]
    open(os.path.join(d, "README"), "w").write(
        f"case: {c.name}\nproperty: {x[0]} {x[2]}\nfrom: {c.path}\n\nbuild: {' '.join(ncmd)}\nrun: {exe} {vf}\n\nexit {rc}\n{out[-6000:]}\n")
    ok = rc in (42, 43, 1, -6, -11, -8, -7, -4, 134, 139)
    return ok, {"path": d, "exit": rc, "note": note}


def functions_encoded(gb):
    rc, out = sh(["goto-instrument", "--reachable-call-graph", gb], timeout=120)
    fs = set()
    for a, b in re.findall(r"^(\S+) -> (\S+)$", out, re.M):
        fs.update((a, b))
    return sorted(f for f in fs if not f.startswith(("__CPROVER", "vp_", "nondet", "main", "_start")))


def known(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) case=(\S+) id=(\S+) (.*)", l)
            if m and m[1] == prop:
                out.append((m[2], m[3], m[4]))
    return out


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    global TOTAL
    if tier == "thorough":
        TOTAL = float(os.environ.get("VP_TOTAL", "7200"))
    only = a[a.index("--only") + 1] if "--only" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    hd = os.path.join(VERIF, "props", prop)
    work = tempfile.mkdtemp(prefix="vp-" + prop + "-")
    if not only:
        shutil.rmtree(os.path.join(VERIF, "evidence", "replay", prop), ignore_errors=True)
    cases = []
    for f in sorted(os.listdir(hd)):
        if f.endswith(".c"):
            cases += parse_harness(os.path.join(hd, f))
    cases = [c for c in cases if (tier == "thorough" or c.tier == "quick") and (not only or re.search(only, c.name))]
    results = [None] * len(cases)
    try:
        with ThreadPoolExecutor(NPAR) as ex:
            futs = [ex.submit(run_case, c, work, tier) for c in cases]
            for i, f in enumerate(futs):
                results[i] = f.result()
                r = results[i]
                if r["status"] not in ("held", "skipped") or only or os.environ.get("VP_V"):
                    print(f"  {r['case']}: {r['status']} {r.get('wall_s')}s oblig={r['obligations']} {r.get('detail','')}", flush=True)
        fenc = set()
        for c in {c.path: c for c in cases}.values():
            gb = os.path.join(work, c.name + ".gb")
            if os.path.exists(gb):
                fenc.update(functions_encoded(gb))
    finally:
        if "--keep" in a:
            print("work:", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    viol, unconf, noans = [], [], []
    kn = known(prop)
    for r in results:
        if r["status"] == "cex":
            mine = [k for k in kn if k[0] == r["case"] and all(b["id"] == k[1] or any(q[0] == r["case"] and q[1] == b["id"] for q in kn) for b in r["bad"])]
            if mine:
                for k in mine:
                    print(f"KNOWN-FINDING: property={prop} {k[2]}")
                continue
            (viol if r.get("confirmed") else unconf).append(r)
        elif r["status"] not in ("held", "skipped"):
            noans.append(r)
    ob = sum(r["obligations"] for r in results)
    di = sum(r["discharged"] for r in results)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other",
          "coverage": {
              "explanation": "Bounded solver-based checking: each case symbolically executes the listed real functions of /repo "
                             "(re-encoded from the working tree on this run) with the inputs named in the harness as solver variables; "
                             "an obligation is one assertion/unwinding assertion shown UNSAT-negated for every value within the stated bounds. "
                             "Every case carries a reachability witness that must come back reachable.",
              "cases": len(results), "obligations": ob, "discharged": di,
              "solver_s": round(sum(r["solver_s"] for r in results), 2),
              "functions_encoded": sorted(fenc),
              "bounds": sorted({b for c in cases for b in c.bound}),
              "per_case": [{k: v for k, v in r.items() if k in ("case", "status", "obligations", "discharged", "solver_s", "wall_s", "unwind",
                            "variables", "clauses", "witness", "trace_validated", "nobody", "detail")} for r in results],
              "traces_validated_against_impl": sum(1 for r in results if r.get("trace_validated")),
              "samples": [{"case": r["case"], "replays": r.get("replays")} for r in results if r.get("replays")][:5] or
                         [{"case": r["case"], "obligations": r["obligations"], "verdict": r["status"]} for r in results[:5]],
          },
          "assumptions": sorted({x for c in cases for x in c.assume}),
          "wall_s": round(time.time() - T0, 2), "violations": len(viol)}
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for r in viol:
        for b in r["replays"][-1:]:
            print(f"  counterexample in {r['case']}: {b['desc']}\n    native replay: exit {b.get('exit')} {b.get('note','').strip().splitlines()[:1]}")
        print(f"VIOLATION property={prop} replay={r['replay']}", flush=True)
    for r in (unconf if not viol else []):
        print(f"  UNCONFIRMED counterexample in {r['case']}: {[b['desc'] for b in r['bad']][:3]} {str(r.get('replays'))[:400]}", flush=True)
    print(f"{prop} [{tier}]: {len(results)} cases, {di}/{ob} obligations, {len(viol)} violations, {len(unconf)} unconfirmed, "
          f"{len(noans)} unanswered, solver {ev['coverage']['solver_s']}s, wall {ev['wall_s']}s")
    if viol:
        return 1
    if unconf or noans:
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
