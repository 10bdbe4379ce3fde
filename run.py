#!/usr/bin/env python3
"""Driver of the model-based checks.

  run.py <PROPERTY> [--tier quick|thorough] [--seed N]   run one check
  run.py <PROPERTY> --replay FILE                         re-run one recorded counterexample

A check is a list of parts (checks/registry.py).  For each part the driver
  1. runs TLC on the TLA+ specification (exhaustive, or -simulate), which checks the
     specification's own invariants and prints one JSON record per terminal behaviour:
     the abstract inputs/steps and the outcome that the specification prescribes;
  2. builds the Go harness against /repo's current working tree (go build -overlay), and lets
     it execute every printed behaviour on the real code and compare the outcomes, or
  3. (trace parts) lets the harness record traces of the real code and has TLC decide
     whether each is a behaviour of the specification.
Exit codes: 0 held, 1 violation (with a VIOLATION line), 2 the check itself failed.
"""
import argparse, concurrent.futures, hashlib, itertools, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "checks"))
T0 = time.time()


class CheckError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# ---------------------------------------------------------------- building

def goenv():
    e = dict(os.environ)
    e.setdefault("GOPROXY", "off")
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True)
    if p.returncode == 0:
        for kv in p.stdout.split(b"\0"):
            if b"=" in kv:
                k, v = kv.decode(errors="replace").split("=", 1)
                e[k] = v
    e["GOFLAGS"] = "-mod=readonly"
    e["GOPROXY"] = "off"
    e["GOTOOLCHAIN"] = "local"
    return e


def build_harness(area, work, race=False):
    """Compile /verif/harness/<area> inside /repo's module, through an overlay."""
    hdir = os.path.join(HERE, "harness")
    rep = {}
    for root, _, files in os.walk(hdir):
        for f in files:
            if f.endswith(".go"):
                src = os.path.join(root, f)
                rep[os.path.join(REPO, "zzverif", os.path.relpath(src, hdir))] = src
    ov = os.path.join(work, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": rep}, f)
    out = os.path.join(work, "h_" + area + ("_race" if race else ""))
    if os.path.exists(out):
        return out
    cmd = ["go", "build", "-overlay", ov, "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./zzverif/" + area)
    t = time.time()
    p = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError("harness %s does not build:\n%s" % (area, p.stderr[-4000:]))
    log("built harness %s%s in %.1fs" % (area, " (race)" if race else "", time.time() - t))
    return out


# ---------------------------------------------------------------- TLC

TLC_JAR_CP = None


def tlc_cmd(module, cfg, extra, heap):
    return ["tlc", "-config", cfg, "-metadir", "@META@"] + extra + [module]


def run_tlc(module, cfg, work, workers=8, simulate=None, seed=1, coverage=False, heap="6g",
            timeout=800, files=None, env=None, allow_violation=False, dfs=False):
    """Run TLC in a private copy of spec/.  Returns dict(states, distinct, records, out, ok)."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=work)
    for f in os.listdir(os.path.join(HERE, "spec")):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(HERE, "spec", f), d)
    for name, content in (files or {}).items():
        with open(os.path.join(d, name), "w") as f:
            f.write(content)
    cmd = ["tlc", "-config", cfg, "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate["num"], "-depth", str(simulate["depth"]), "-seed", str(seed)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd.append(module + ".tla")
    e = dict(os.environ)
    jo = "-Xmx%s -XX:+UseParallelGC -Xss16m" % heap
    if dfs:
        jo += " -Dtlc2.tool.queue.IStateQueue=StateDeque"
    e["JAVA_TOOL_OPTIONS"] = jo
    e.update(env or {})
    outp = os.path.join(d, "out.txt")
    with open(outp, "w") as of:
        p = subprocess.Popen(cmd, cwd=d, stdout=of, stderr=subprocess.STDOUT, env=e, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise CheckError("TLC timed out on %s/%s" % (module, cfg))
    records, rest = [], []
    with open(outp, errors="replace") as f:
        for line in f:
            if line.startswith('"@@'):
                try:
                    records.append(json.loads(json.loads(line.strip())[2:]))
                except Exception as ex:
                    raise CheckError("bad record from TLC: %r (%s)" % (line[:300], ex))
            else:
                rest.append(line)
    out = "".join(rest)
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    gen = dist = 0
    if m:
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
    else:
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m:
            gen = dist = int(m[-1].replace(",", ""))
    ok = rc == 0
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    res = {"states": dist, "transitions": gen, "records": records, "out": out, "rc": rc, "ok": ok, "dir": d}
    if not ok and not allow_violation:
        raise CheckError("TLC failed (rc=%d) on %s/%s:\n%s" % (rc, module, cfg, out[-3000:]))
    if coverage:
        res["actions"] = action_coverage(out)
    os.unlink(outp)
    return res


def action_coverage(out):
    """<Action line .. of module M>: distinct:generated  -> {action: generated} (last report)."""
    acts = {}
    for m in re.finditer(r"^<(\w+) line \d+.*? of module (\w+)(?: \([^)]*\))?>: (\d+):(\d+)", out, re.M):
        acts[m.group(2) + "." + m.group(1)] = int(m.group(4))
    return acts


# ---------------------------------------------------------------- harness

counter = itertools.count()


def run_harness(binp, mode, work, scen, seed, tier, timeout, env=None, only=None, par=8, race=False, extra=None):
    tag = "%s_%d_%d" % (mode, int(time.time() * 1e6), next(counter))
    inp = os.path.join(work, tag + ".in")
    outp = os.path.join(work, tag + ".out")
    if scen is not None:
        with open(inp, "w") as f:
            for s in scen:
                f.write(json.dumps(s) + "\n")
    jr = os.path.join(work, tag + ".journal")
    cmd = [binp, "-mode", mode, "-in", inp, "-out", outp, "-seed", str(seed), "-tier", tier, "-par", str(par),
           "-journal", jr] + (extra or [])
    e = dict(os.environ)
    e.update({"GOTRACEBACK": "all"})
    scratch = os.path.join(work, tag + ".scratch")
    os.mkdir(scratch)
    e["VERIF_SCRATCH"] = scratch
    racelog = os.path.join(work, tag + ".race")
    if race:
        e["GORACE"] = "halt_on_error=0 exitcode=0 atexit_sleep_ms=100 log_path=" + racelog
    e.update(env or {})
    errp = os.path.join(work, tag + ".err")
    with open(errp, "w") as ef:
        p = subprocess.Popen(cmd, cwd=scratch, stdout=ef, stderr=subprocess.STDOUT, env=e, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
    err = open(errp, errors="replace").read()
    results = []
    if os.path.exists(outp):
        for line in open(outp, errors="replace"):
            try:
                results.append(json.loads(line))
            except Exception:
                pass
    inflight = []
    if os.path.exists(jr):
        st = {}
        for line in open(jr):
            x = line.split()
            if len(x) == 2:
                st[int(x[1])] = x[0]
        inflight = [i for i, v in st.items() if v == "b"]
    races = []
    if race:
        for f in os.listdir(work):
            if f.startswith(os.path.basename(racelog)):
                races.append(open(os.path.join(work, f), errors="replace").read())
    return {"rc": rc, "err": err, "results": results, "inflight": inflight, "races": races}


def crashed(h):
    return h["rc"] not in (0, "timeout") and re.search(r"^(panic:|fatal error:|runtime: )", h["err"], re.M)


def crash_line(err):
    m = re.search(r"^(panic:.*|fatal error:.*)$", err, re.M)
    return m.group(1)[:300] if m else "crash"


def crash_site(err):
    """first frame inside the repository (stable over line numbers)."""
    m = re.search(r"github\.com/trustbloc/vc-go/(?!zzverif)([\w/\-\.]+\.[\w\(\)\*\.]+)", err)
    return re.sub(r"\(0x.*", "", m.group(1)) if m else "?"


def replay_scenarios(binp, mode, work, scen, seed, tier, timeout, shared=False, **kw):
    """Run scenarios on the real code; survive process-killing crashes by isolating them.
    shared: scenarios use objects from several goroutines, and a crash that does not repeat is one of theirs."""
    todo = list(range(len(scen)))
    results, fails = {}, []
    rounds = 0
    races = []

    def one_at_a_time():
        """scenarios that share nothing may disturb each other all the same: judge them in processes of their own kind"""
        left = [i for i in range(len(scen)) if i not in results]
        k1 = dict(kw, par=1)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            jobs = [(left[k::8], ex.submit(replay_scenarios, binp, mode, work, [scen[i] for i in left[k::8]],
                                           seed, tier, timeout, shared, **k1)) for k in range(8) if left[k::8]]
        for ids, job in jobs:
            rs, more = job.result()
            races.extend(more)
            for i, r in zip(ids, rs):
                results[i] = dict(r, n=i)

    while todo:
        h = run_harness(binp, mode, work, [dict(scen[i], _n=i) for i in todo], seed, tier, timeout, **kw)
        races += h["races"]
        for r in h["results"]:
            results[r["n"]] = r
        if h["rc"] == 0:
            break
        rounds += 1
        if h["rc"] == "timeout" or crashed(h):
            bad = []
            for i in h["inflight"][:16]:
                h1 = run_harness(binp, mode, work, [dict(scen[i], _n=i)], seed, tier, 200, **kw)
                if h1["rc"] == "timeout":
                    bad.append(i)
                    results[i] = {"n": i, "ok": False, "key": "hang:" + scen_key(scen[i]), "msg": "no result within 200 s"}
                elif crashed(h1):
                    bad.append(i)
                    results[i] = {"n": i, "ok": False, "key": "crash:" + crash_site(h1["err"]),
                                  "msg": "process crashed: " + crash_line(h1["err"]) + " in " + crash_site(h1["err"])}
                elif h1["rc"] == 0:
                    for r in h1["results"]:
                        results[r["n"]] = r
                else:
                    raise CheckError("harness error:\n" + h1["err"][-3000:])
            if not bad and crashed(h) and kw.get("par", 8) > 1:
                one_at_a_time()
                break
            if not bad and crashed(h) and shared and crash_site(h["err"]) != "?" and h["inflight"]:
                i = h["inflight"][0]
                bad.append(i)
                results[i] = {"n": i, "ok": False, "key": "crash:" + crash_site(h["err"]),
                              "msg": "process crashed: " + crash_line(h["err"]) + " in " + crash_site(h["err"])}
            if not bad:
                if crashed(h):
                    raise CheckError("harness crashed, not reproduced in isolation:\n" + h["err"][-4000:])
                raise CheckError("harness timed out (mode %s)" % mode)
            todo = [i for i in todo if i not in results]
            if rounds > 20:  # enough are known
                for i in todo:
                    results[i] = {"n": i, "ok": True, "runs": 0}
                break
        elif h["rc"] == 3 and kw.get("par", 8) > 1 and len(todo) > 1:
            one_at_a_time()
            break
        else:
            raise CheckError("harness failed rc=%s:\n%s" % (h["rc"], h["err"][-3000:]))
    missing = [i for i in range(len(scen)) if i not in results]
    if missing:
        raise CheckError("harness gave no result for %d scenarios" % len(missing))
    return [results[i] for i in range(len(scen))], races


def scen_key(s):
    return hashlib.sha1(json.dumps(s, sort_keys=True).encode()).hexdigest()[:10]


def race_keys(texts):
    keys = {}
    for t in texts:
        for blk in t.split("WARNING: DATA RACE")[1:]:
            fr = re.findall(r"github\.com/trustbloc/vc-go/(?!zzverif)([\w/\-\.]+\.[\w\(\)\*\.]+)", blk)
            if not fr:
                continue  # race entirely outside the repository (harness or dependency)
            k = "race:" + fr[0]
            # where the memory is touched: a module of somebody else on both sides?
            tops = [re.search(r"^  ((?:[\w\-]+\.)+\w+/[\w\-\.]+/[\w\-\.]+)", part, re.M) for part in
                    re.split(r"^Previous ", blk, flags=re.M)[:2]]
            mods = {m.group(1).rsplit(".(", 1)[0] if m else "?" for m in tops}
            mods = {re.sub(r"\.$", "", m) for m in mods}
            if len(mods) == 1 and not list(mods)[0].startswith("github.com/trustbloc/vc-go") and mods != {"?"}:
                k = "race-in:%s:%s" % (list(mods)[0], fr[0])
            keys.setdefault(k, blk[:12000])
    return keys


# ---------------------------------------------------------------- known findings

def load_known():
    kf = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                kf.append(json.loads(line))
    return kf


class Ctx:
    def __init__(self, pid, tier, seed, work):
        self.pid, self.tier, self.seed, self.work = pid, tier, seed, work
        self.states = self.transitions = self.traces = 0
        self.samples, self.fail, self.parts = [], [], []
        self.actions = {}
        self.nontrivial = set()

    def quick(self):
        return self.tier == "quick"

    def fails(self, part, scen, res):
        self.fail.append({"part": part, "key": res.get("key") or "?", "msg": res.get("msg", ""), "scenario": scen,
                          "seed": self.seed})


def finish(ctx, level, t0, assumptions):
    known = [k for k in load_known() if k["property"] == ctx.pid]
    new, seen = {}, {}
    for f in ctx.fail:
        k = next((k for k in known if k["key"] == f["key"] or
                  (k.get("prefix") and f["key"].startswith(k["prefix"]))), None)
        if k is not None:
            seen.setdefault(k["key"], f)
        else:
            new.setdefault(f["key"], f)
    for k in known:
        if k["key"] in seen:
            print("KNOWN-FINDING: property=%s %s" % (ctx.pid, k["what"]))
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                       "traces_validated_against_impl": ctx.traces, "samples": ctx.samples[:6],
                       "parts": ctx.parts},
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        rd = os.path.join(HERE, "replay", ctx.pid)
        os.makedirs(rd, exist_ok=True)
        for i, (k, f) in enumerate(sorted(new.items())[:int(os.environ.get("VERIF_KEYS", "20"))]):
            fn = os.path.join(rd, "%s_%s.json" % (f["part"], hashlib.sha1(k.encode()).hexdigest()[:10]))
            with open(fn, "w") as g:
                json.dump(f, g, indent=1)
            print("  %s: %s" % (k, str(f["msg"])[:600]))
            print("VIOLATION property=%s replay=%s" % (ctx.pid, fn))
        return 1
    log("property %s held: %d states, %d transitions, %d behaviours replayed/validated on the code" %
        (ctx.pid, ctx.states, ctx.transitions, ctx.traces))
    return 0


# ---------------------------------------------------------------- parts

def part_emit(ctx, p, only=None):
    """TLC enumerates behaviours with prescribed outcomes; the harness replays them."""
    q = ctx.tier
    name = p["name"]
    race = p.get("race", False)
    binp = build_harness(p["area"], ctx.work, race)
    if only is None:
        cfg = p["cfg"][q] if isinstance(p["cfg"], dict) else p["cfg"]
        sim = p.get("simulate", {}).get(q) if p.get("simulate") else None
        t = time.time()
        r = run_tlc(p["module"], cfg, ctx.work, simulate=sim, seed=ctx.seed, coverage=True,
                    timeout=p.get("tlc_timeout", {}).get(q, 700 if q == "quick" else 3600), heap=p.get("heap", "8g"),
                    workers=p.get("workers", 8))
        recs = r["records"]
        # one record per distinct content
        uniq, seen = [], set()
        for x in recs:
            k = json.dumps(x, sort_keys=True)
            if k not in seen:
                seen.add(k)
                uniq.append(x)
        recs = sorted(uniq, key=lambda x: json.dumps(x, sort_keys=True))
        ctx.states += r["states"]
        ctx.transitions += r["transitions"]
        log("%s: TLC %s/%s: %d distinct states, %d transitions, %d behaviours (%.1fs)" %
            (name, p["module"], cfg, r["states"], r["transitions"], len(recs), time.time() - t))
        dead = [a for a, n in r.get("actions", {}).items() if n == 0 and a.split(".")[1] not in p.get("may_be_idle", ())]
        if dead and not sim:
            raise CheckError("vacuous: actions never taken: %s" % dead)
        if len(recs) < p.get("min", 1):
            raise CheckError("vacuous: only %d behaviours" % len(recs))
        cl = {}
        for x in recs:
            c = str(x.get("expect", ""))
            c = c if len(c) < 20 else c[:20]
            cl[c] = cl.get(c, 0) + 1
        for c in p.get("classes", ()):
            if cl.get(c, 0) == 0:
                raise CheckError("vacuous: no behaviour with outcome %s" % c)
        mx = p.get("max", {}).get(q)
        total = len(recs)
        if mx and len(recs) > mx:
            import random
            must = [x for x in recs if p["always"](x)] if p.get("always") else []
            rest = [x for x in recs if not p["always"](x)] if must else recs
            recs = must + random.Random(ctx.seed).sample(rest, max(0, min(len(rest), mx - len(must))))
    else:
        recs, total, cl, r = only, len(only), {}, None
    t = time.time()
    results, races = replay_scenarios(binp, p["mode"], ctx.work, recs, ctx.seed, q,
                                      p.get("h_timeout", {}).get(q, 600 if q == "quick" else 3600),
                                      race=race, par=p.get("par", 8), extra=p.get("args"), shared=p.get("shared", False))
    nf = 0
    runs = 0
    for s, res in zip(recs, results):
        runs += res.get("runs", 1)
        if not res["ok"]:
            nf += 1
            ctx.fails(name, s, res)
    keys = race_keys(races)
    blame = {}
    for i in [i for i, res in enumerate(results) if res.get("race")][:40] if keys else []:
        if len(blame) == len(keys):
            break
        # alone, so that the report belongs to this behaviour
        _, rs = replay_scenarios(binp, p["mode"], ctx.work, [recs[i]] * (1 if len(recs) == 1 else 3), ctx.seed, q, 300,
                                 race=True, par=1, extra=p.get("args"), shared=p.get("shared", False))
        for k in race_keys(rs):
            blame.setdefault(k, recs[i])
    for k, blk in keys.items():
        nf += 1
        ctx.fails(name, blame.get(k, recs[0] if recs else {}), {"key": k, "msg": blk})
    ctx.traces += len(recs)
    ctx.samples += [{"part": name, "behaviour": s, "observed": res.get("obs")} for s, res in list(zip(recs, results))[:: max(1, len(recs) // 2)][:2]]
    ctx.parts.append({"name": name, "spec": p["module"], "behaviours_from_spec": total, "replayed": len(recs),
                      "real_executions": runs, "outcome_classes": {k: v for k, v in list(cl.items())[:20]}, "failures": nf,
                      "actions": (r or {}).get("actions", {})})
    log("%s: replayed %d behaviours (%d executions) on the code, %d disagreements (%.1fs)" %
        (name, len(recs), runs, nf, time.time() - t))


def part_trace(ctx, p, only=None):
    """The harness records traces of the real code; TLC decides whether the spec allows them."""
    q = ctx.tier
    name = p["name"]
    race = p.get("race", False)
    binp = build_harness(p["area"], ctx.work, race)
    n = p["count"][q]
    seeds = [ctx.seed * 100003 + i for i in range(p.get("batches", {}).get(q, 1))]
    if only is not None:
        seeds = [only[0]["_seed"]]
    tl = time.time()
    for sd in seeds:
        h = run_harness(binp, p["mode"], ctx.work, [{"_n": 0, "count": n}], sd, q,
                        p.get("h_timeout", {}).get(q, 400), race=race, extra=p.get("args"))
        if h["rc"] != 0:
            if crashed(h):
                ctx.fails(name, {"_seed": sd}, {"key": "crash:" + crash_site(h["err"]), "msg": crash_line(h["err"])})
                continue
            raise CheckError("trace harness failed rc=%s:\n%s" % (h["rc"], h["err"][-3000:]))
        for k, blk in race_keys(h["races"]).items():
            ctx.fails(name, {"_seed": sd}, {"key": k, "msg": blk})
        traces = {}
        for x in h["results"]:
            traces.setdefault(x["t"], []).append(x["e"])
        if not traces:
            raise CheckError("trace harness produced no trace")
        ids = sorted(traces)
        # all traces in one TLC run (variable tid picks the trace)
        content = "".join(json.dumps({"t": t, "ev": traces[t]}) + "\n" for t in ids)
        bad = validate(ctx, p, content, len(ids), ids)
        nb = 0
        for t, at in bad:
            nb += 1
            ev = traces[t]
            msg = "trace %s rejected: longest explained prefix %d of %d; next event %s" % (
                t, at, len(ev), json.dumps(ev[at] if at < len(ev) else None))
            ctx.fails(name, {"_seed": sd, "trace": ev[: at + 2][-40:], "t": t},
                      {"key": "trace:" + (ev[at].get("op", "?") if at < len(ev) else "?"), "msg": msg})
        ctx.traces += len(ids)
        if len(ctx.samples) < 6:
            ctx.samples.append({"part": name, "trace_prefix": traces[ids[0]][:6]})
        ctx.parts.append({"name": name, "spec": p["module"], "traces": len(ids), "seed": sd,
                          "events": sum(len(v) for v in traces.values()), "rejected": nb})
    log("%s: validated traces (%.1fs)" % (name, time.time() - tl))


def validate(ctx, p, content, n, ids):
    cfg = p["cfg"] if not isinstance(p["cfg"], dict) else p["cfg"][ctx.tier]
    r = run_tlc(p["module"], cfg, ctx.work, workers=8, files={"trace.ndjson": content}, heap="8g",
                timeout=800 if ctx.quick() else 3600, allow_violation=True, dfs=False)
    ctx.states += r["states"]
    ctx.transitions += r["transitions"]
    done = {}
    prog = {}
    for x in r["records"]:
        if x.get("done"):
            done[x["t"]] = True
        if "at" in x:
            prog[x["t"]] = max(prog.get(x["t"], 0), x["at"])
    if not r["ok"]:
        raise CheckError("TLC failed on traces (rc=%d):\n%s" % (r["rc"], r["out"][-3000:]))
    bad = [t for t in ids if t not in done]
    if bad:  # locate the longest explained prefix of the first few
        show = bad[:8]
        sub = "".join(l + "\n" for l in content.splitlines() if json.loads(l)["t"] in show)
        dbg = open(os.path.join(HERE, "spec", cfg)).read().replace("Debug = FALSE", "Debug = TRUE")
        r2 = run_tlc(p["module"], "debug.cfg", ctx.work, files={"trace.ndjson": sub, "debug.cfg": dbg}, timeout=600,
                     allow_violation=True)
        for x in r2["records"]:
            if "at" in x:
                prog[x["t"]] = max(prog.get(x["t"], 0), x["at"])
        bad = show
    return [(t, prog.get(t, 0)) for t in bad]


PART = {"emit": part_emit, "trace": part_trace}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--part")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    from registry import CHECKS
    if a.property not in CHECKS:
        print("unknown property", a.property)
        return 2
    chk = CHECKS[a.property]
    work = tempfile.mkdtemp(prefix="verif_%s_" % a.property)
    t0 = time.time()
    ctx = Ctx(a.property, a.tier, a.seed, work)
    try:
        if a.replay:
            f = json.load(open(a.replay))
            ctx.seed = f["seed"]
            p = next(p for p in chk["parts"] if p["name"] == f["part"])
            PART[p["kind"]](ctx, p, only=[f["scenario"]])
        else:
            for p in chk["parts"]:
                if a.part and p["name"] != a.part:
                    continue
                if a.tier not in p.get("tiers", ("quick", "thorough")):
                    continue
                PART[p["kind"]](ctx, p)
        return finish(ctx, chk.get("level", "model_checking"), t0, chk.get("assumptions", []))
    except CheckError as ex:
        print("CHECK-ERROR property=%s: %s" % (a.property, ex))
        return 2
    finally:
        if a.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
