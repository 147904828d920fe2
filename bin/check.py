#!/usr/bin/env python3
"""check.py Cxx: decides one property on /repo's working tree.

 1. builds the trace driver (harness/*.go) into /repo's module by a go build
    overlay, from the working tree;
 2. lets TLC check the property's design model and write the corpus of cases
    that the model generates (spec/MC*.tla);
 3. runs the driver: it replays the corpus and generated inputs, schedules and
    histories against the real code and records what the code does;
 4. lets TLC validate every recorded session against the specification
    (spec/Trace*.tla).

Exit 0: every session is a behaviour of the specification.  Exit 1: a VIOLATION
line; the replay file holds the rejected session.  Anything else (exit 2) is an
error of the check and says nothing about the property.
"""
import concurrent.futures as cf
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
T0 = time.time()


class CheckError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- what to run
# scen: driver scenario; spec: trace specification; n: size (quick, thorough);
# race: use the race-detector build; lin: acceptance by reaching the end of a
# session on some path (DONE) instead of by every step.
class Run:
    def __init__(self, scen, spec, nq, nt, race=False, lin=False):
        self.scen, self.spec, self.n = scen, spec, (nq if TIER == "quick" else nt)
        self.race, self.lin = race, lin


# mc: design models (spec/<name>.cfg of module <mod>), "corpus": its output is
# given to the driver; expect="violation": the model must FAIL (negative model).
class MC:
    def __init__(self, mod, cfg=None, corpus=False, expect="ok", tiers=("quick", "thorough"), simulate=None):
        self.mod, self.cfg, self.corpus = mod, cfg or mod, corpus
        self.expect, self.tiers, self.simulate = expect, tiers, simulate


from props import PROPS  # noqa: E402  (the table of properties, below bin/)


# ---------------------------------------------------------------- building
def go_env():
    env = dict(os.environ)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
    env.setdefault("HOME", "/root")
    env["GOCACHE"] = env.get("VERIF_GOCACHE") or "/root/.cache/go-build"
    env["GOPATH"] = "/root/go"
    env["PATH"] = "/usr/local/bin:" + env.get("PATH", "")
    return env


def build(scratch, race, inside=()):
    """inside: files of harness/inside that reach what package oid does not export.  It is no
    error if one does not build: what it reaches may have been renamed or removed."""
    for extra in ([inside] + [(x,) for x in inside] if inside else []):
        try:
            out = build1(scratch, race, extra)
            if extra != inside:
                log("not reachable in package oid:", " ".join(x for x in inside if x not in extra))
            return out
        except CheckError:
            pass
    return build1(scratch, race, ())


def build1(scratch, race, inside):
    out = os.path.join(scratch, "drv-race" if race else "drv")
    repl = {}
    for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
        if f.endswith(".go"):
            repl[os.path.join(REPO, "zzverif", f)] = os.path.join(VERIF, "harness", f)
    for f in inside:
        repl[os.path.join(REPO, "oid", "zz_verif_" + f)] = os.path.join(VERIF, "harness", "inside", f)
    ov = os.path.join(scratch, "overlay.json")
    with open(ov, "w") as h:
        json.dump({"Replace": repl}, h)
    cmd = ["go", "build", "-overlay", ov, "-o", out] + (["-race"] if race else []) + ["./zzverif"]
    p = subprocess.run(cmd, cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0:
        raise CheckError("the driver does not build:\n" + p.stdout)
    return out


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, scratch, env=None, workers=8, mem="6g", timeout=800, extra=()):
    md = tempfile.mkdtemp(prefix="md", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xss256m", "-Xmx" + mem, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + md, "-DTLA-Library=" + SPEC, "-cp", JARS,
           "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md, "-config", os.path.join(SPEC, cfg + ".cfg")] + list(extra) + \
          [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=md, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC on %s/%s did not finish in %d s" % (module, cfg, timeout))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ",").replace("\u00a0", ""))
    if not m:
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return None
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def run_mc(mc, scratch, stats):
    env = {"SEED": str(SEED)}
    out = None
    if mc.corpus:
        out = os.path.join(scratch, mc.cfg + ".corpus")
        env["OUT"] = out
    extra = []
    if mc.simulate:
        extra = ["-simulate", "num=%d" % mc.simulate[0 if TIER == "quick" else 1], "-depth", str(mc.simulate[2]), "-seed", str(SEED)]
    t = time.time()
    rc, o = tlc(mc.mod, mc.cfg, scratch, env, workers=8 if not mc.simulate else 1, mem="8g", extra=extra)
    c = counts(o)
    violated = re.search(r"(Invariant|property|Temporal properties).*(is violated|were violated)|Deadlock reached", o) is not None
    if mc.expect == "ok":
        if rc != 0:
            raise CheckError("design model %s failed (rc %d):\n%s" % (mc.cfg, rc, o[-3000:]))
    elif not violated:
        raise CheckError("negative model %s was expected to fail and did not (rc %d):\n%s" % (mc.cfg, rc, o[-3000:]))
    if c is None and mc.simulate:
        m = re.findall(r"(\d[\d,]*) states checked", o) or re.findall(r"number of states generated: ([\d,]+)", o)
        n = int(m[-1].replace(",", "")) if m else 0
        c = (n, 0)
    if c is None:
        raise CheckError("no state count from %s:\n%s" % (mc.cfg, o[-2000:]))
    ncorp = 0
    if out:
        if not os.path.exists(out):
            raise CheckError("model %s wrote no corpus:\n%s" % (mc.cfg, o[-2000:]))
        with open(out) as h:
            ncorp = sum(1 for _ in h)
    stats["models"].append({"model": mc.cfg, "expect": mc.expect, "generated": c[0], "distinct": c[1], "corpus_cases": ncorp,
                            "wall_s": round(time.time() - t, 1)})
    if mc.expect == "ok" and not mc.simulate:
        stats["mc_states"] += c[1]
        stats["mc_transitions"] += c[0]
    log("model", mc.cfg, "generated", c[0], "distinct", c[1], "corpus", ncorp)
    return out


# ---------------------------------------------------------------- the driver
def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def drive(drv, scen, n, out, scratch, race, corpus, journal=None, seed=None, timeout=700):
    env = dict(os.environ)
    env["GOTRACEBACK"] = "single"
    if race:
        env["GORACE"] = "log_path=%s halt_on_error=0 exitcode=0 history_size=3" % os.path.join(scratch, "race")
    cmd = [drv, "-scen", scen, "-seed", str(SEED if seed is None else seed), "-n", str(n), "-out", out]
    if corpus:
        cmd += ["-corpus", corpus]
    if journal:
        cmd += ["-journal", journal]
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                           errors="replace", preexec_fn=None if race else limits)
    except subprocess.TimeoutExpired:
        raise CheckError("driver %s did not finish in %d s" % (scen, timeout))
    return p


def record(prop, run, drv, scratch, corpus, stats):
    """Returns the sessions (JSON lines) that the real code produced."""
    out = os.path.join(scratch, run.scen + (".race" if run.race else "") + ".json")
    p = drive(drv, run.scen, run.n, out, scratch, run.race, corpus)
    if p.returncode == 0:
        with open(out) as h:
            return h.read().splitlines()
    if p.returncode == 3 or "harness:" in p.stderr:
        raise CheckError("driver error:\n" + p.stderr[-3000:])
    # The runtime saw two goroutines at one map, or a lock misused, inside the code under test:
    # that is a race whatever the schedule of another run would be.
    f = re.search(r"^fatal error: (concurrent map .*|sync: .*)$", p.stderr, re.M)
    if f and blamed(p.stderr[f.start():]):
        return [json.dumps({"ev": [{"e": "race", "report": p.stderr[f.start():][:3000]}]})]
    # The process that runs the code died or hung: does the same call do it again?
    log("driver ended with", p.returncode, "- reproducing with a journal")
    seen = []
    for k in range(3):
        jf = os.path.join(scratch, "journal%d" % k)
        q = drive(drv, run.scen, run.n, out, scratch, run.race, corpus, journal=jf)
        if q.returncode in (0, 3):
            continue
        try:
            with open(jf) as h:
                j = json.loads(h.readline())
        except Exception:
            continue
        seen.append((json.dumps(j, sort_keys=True) if not j.get("op", "").startswith("concurrent") else j["op"], j, q))
        if len([1 for x in seen if x[0] == seen[-1][0]]) >= 2:
            j, q = seen[-1][1], seen[-1][2]
            kind = "hang" if q.returncode == 4 else "crash"
            return [json.dumps({"ev": [{"e": kind, "call": j, "exit": q.returncode, "stderr": q.stderr[:1500]}]})]
    raise CheckError("the driver died (rc %d) and not twice in the same call:\n%s" % (p.returncode, p.stderr[-3000:]))


def blamed(trace):
    """Is the innermost frame (below the runtime and the standard library) in the code under test?"""
    for m in re.findall(r"^(\S+)\(.*\)$", trace, re.M):
        if m.startswith("main."):
            return False
        if m.startswith("github.com/alexispb/mygosnmp/"):
            return True
    return False


def race_reports(scratch):
    out = []
    for f in sorted(os.listdir(scratch)):
        if f.startswith("race."):
            with open(os.path.join(scratch, f), errors="replace") as h:
                for blk in h.read().split("=================="):
                    # only races on memory of the code under test, not between harness lines
                    if "DATA RACE" in blk:
                        out.append(blk.strip()[:3000])
    return out


# ---------------------------------------------------------------- validation
MAXBATCH = 6 << 20


def batches(lines):
    total = sum(len(x) for x in lines)
    k = max(1, min(len(lines), max((total + MAXBATCH - 1) // MAXBATCH, 4 if total > (1 << 20) else 1)))
    bs = [[] for _ in range(k)]
    size = [0] * k
    for i, x in sorted(enumerate(lines), key=lambda t: -len(t[1])):
        j = size.index(min(size))
        bs[j].append((i, x))
        size[j] += len(x)
    return [sorted(b) for b in bs if b]


def validate_batch(run, scratch, k, batch):
    f = os.path.join(scratch, "%s%s-%d.ndjson" % (run.scen, "r" if run.race else "", k))
    with open(f, "w") as h:
        for _, x in batch:
            h.write(x + "\n")
    rc, out = tlc(run.spec, "Trace", scratch, {"TRACE": f}, workers=2, mem="5g")
    os.unlink(f)
    rej = []
    c = counts(out)
    if "Model checking completed. No error has been found." not in out or rc != 0 or c is None:
        raise CheckError("TLC failed on a batch of %s (rc %d):\n%s" % (run.scen, rc, out[-3000:]))
    if run.lin:
        done = set(int(m) for m in re.findall(r'<<"DONE", (\d+)>>', out))
        for i in range(1, len(batch) + 1):
            if i not in done:
                rej.append((batch[i - 1][0], 0))
    else:
        for s, l in re.findall(r'<<"REJECT", (\d+), (\d+)>>', out):
            rej.append((batch[int(s) - 1][0], int(l)))
        want = sum(len(json.loads(x)["ev"]) + 1 for _, x in batch)
        if not rej and c[1] != want:
            raise CheckError("TLC visited %d states of %s, expected %d:\n%s" % (c[1], run.scen, want, out[-2000:]))
    return rej, c


def validate(run, scratch, lines, stats):
    bs = batches(lines)
    rejected = []
    with cf.ThreadPoolExecutor(4) as ex:
        futs = [ex.submit(validate_batch, run, scratch, k, b) for k, b in enumerate(bs)]
        for f in futs:
            rej, c = f.result()
            rejected += rej
            stats["tr_states"] += c[1]
            stats["tr_transitions"] += c[0]
    stats["sessions"] += len(lines)
    return sorted(set(rejected))


# ---------------------------------------------------------------- evidence
def kinds(lines):
    d = {}
    for x in lines:
        for e in json.loads(x)["ev"]:
            k = e["e"] + (":" + e["op"] if "op" in e and isinstance(e["op"], str) else "")
            if "ok" in e and isinstance(e["ok"], bool):
                k += "/ok" if e["ok"] else "/refused"
            d[k] = d.get(k, 0) + 1
    return d


def short(v, n=600):
    s = json.dumps(v)
    return v if len(s) <= n else s[:n] + " ..."


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        print("usage: check.py C01..C%02d" % len(PROPS), file=sys.stderr)
        return 2
    prop = sys.argv[1]
    P = PROPS[prop](Run, MC)
    stats = dict(models=[], mc_states=0, mc_transitions=0, tr_states=0, tr_transitions=0, sessions=0)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    violations = []
    samples, evk, nev = [], {}, 0
    try:
        drv = {}
        if any(not r.race for r in P["runs"]):
            drv[False] = build(scratch, False, P["inside"])
        if any(r.race for r in P["runs"]):
            drv[True] = build(scratch, True)
        log("driver built from", REPO)
        corpus = os.path.join(scratch, "corpus.ndjson")
        open(corpus, "w").close()
        with cf.ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(run_mc, m, scratch, stats) for m in P.get("mc", []) if TIER in m.tiers]
            for f in fs:
                o = f.result()
                if o:
                    with open(o) as h, open(corpus, "a") as c:
                        c.write(h.read())
        for run in P["runs"]:
            lines = record(prop, run, drv[run.race], scratch, corpus, stats)
            if run.race:
                for r in race_reports(scratch):
                    lines.append(json.dumps({"ev": [{"e": "race", "report": r}]}))
            if not lines:
                raise CheckError("scenario %s recorded nothing" % run.scen)
            ks = kinds(lines)
            for k, v in ks.items():
                evk[k] = evk.get(k, 0) + v
            nev += sum(ks.values())
            log(run.scen, "recorded", len(lines), "sessions,", sum(ks.values()), "events")
            rej = validate(run, scratch, lines, stats)
            log(run.scen, "validated, rejected:", len(rej))
            for i, l in rej:
                ses = json.loads(lines[i])
                violations.append((run, i, l, ses))
            for i in (0, len(lines) // 2, len(lines) - 1):
                samples.append({"scenario": run.scen, "session": i, "events": len(json.loads(lines[i])["ev"]),
                                "first": short(json.loads(lines[i])["ev"][0])})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = load_known(prop)
    shown, new = [], []
    for run, i, l, ses in violations:
        e = ses["ev"][l - 1] if 0 < l <= len(ses["ev"]) else ses
        text = json.dumps(e, sort_keys=True)
        hit = [k for k in known if k in text]
        (shown if hit else new).append((run, i, l, ses, e))
    for run, i, l, ses, e in shown[:20]:
        print("KNOWN-FINDING: property=%s %s" % (prop, short(e, 300)))

    if TIER in ("quick", "thorough"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
            "coverage": {
                "states": stats["mc_states"] + stats["tr_states"],
                "transitions": stats["mc_transitions"] + stats["tr_transitions"],
                "traces_validated_against_impl": stats["sessions"],
                "samples": samples[:6],
                "events_validated": nev,
                "events_by_kind": dict(sorted(evk.items())),
                "design_models": stats["models"],
                "trace_states": stats["tr_states"],
                "design_states": stats["mc_states"],
            },
            "assumptions": P["assume"],
            "wall_s": round(time.time() - T0, 1),
            "violations": len(new),
        }
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
    if new:
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-seed%d-%s.json" % (prop, SEED, TIER))
        with open(path, "w") as h:
            json.dump({"property": prop, "seed": SEED, "tier": TIER,
                       "how": "the recorded session below is not a behaviour of spec/%s.tla; event %s is the first rejected" % (new[0][0].spec, new[0][2] or "(no linearization)"),
                       "reproduce": "VERIF_SEED=%d VERIF_TIER=%s python3 bin/check.py %s" % (SEED, TIER, prop),
                       "rejected": [{"scenario": r.scen, "spec": r.spec, "session": i, "event_index": l, "event": e,
                                     "session_events": s["ev"] if len(json.dumps(s)) < 400000 else "(long)"}
                                    for r, i, l, s, e in new[:10]],
                       "rejected_total": len(new)}, h, indent=1)
        print("rejected: %s" % short(new[0][4], 1500))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("OK property=%s tier=%s seed=%d sessions=%d events=%d states=%d wall=%.1fs" %
          (prop, TIER, SEED, stats["sessions"], nev, stats["mc_states"] + stats["tr_states"], time.time() - T0))
    return 0


def load_known(prop):
    """Lines 'known: property=<id> match=<json fragment> ...' of known_findings.txt."""
    r = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as h:
            for x in h:
                m = re.match(r"known: property=(\S+) match=(.*)$", x.strip())
                if m and m.group(1) == prop:
                    r.append(m.group(2))
    except FileNotFoundError:
        pass
    return r


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR (no verdict): %s" % e, file=sys.stderr)
        sys.exit(2)
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        print("ERROR (no verdict): %r" % e, file=sys.stderr)
        sys.exit(2)
