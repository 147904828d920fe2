#!/usr/bin/env python3
"""corrupt.py [Cxx...]: how much do the trace specifications look at?

Records sessions from the unchanged code, changes one value in one event, and
asks TLC whether the session is still accepted.  Prints, for every event kind
and field, how many of the corrupted sessions were rejected.  A field whose
corruption is accepted is not looked at (or the change was meaningless)."""
import copy, json, os, random, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
props = sys.argv[1:]
sys.argv = ["corrupt"]
import check

N = int(os.environ.get("N", "24"))
rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))


def leafpaths(x, p=()):
    if isinstance(x, dict):
        for k in x:
            yield from leafpaths(x[k], p + (k,))
    elif isinstance(x, list):
        if not x:
            yield p
        for i, y in enumerate(x):
            yield from leafpaths(y, p + (i,))
    else:
        yield p


def get(x, p):
    for k in p:
        x = x[k]
    return x


def corrupt(e, key):
    ps = list(leafpaths(e[key], (key,)))
    p = rnd.choice(ps)
    old = get(e, p)
    if isinstance(old, bool):
        new = not old
    elif isinstance(old, int):
        new = old ^ 1 if rnd.random() < .7 else (old + 2 if old < 250 else old - 2)
    elif isinstance(old, str):
        if len(old) == 16 and all(c in "0123456789abcdef" for c in old):
            new = old[:-1] + ("0" if old[-1] != "0" else "1")
        else:
            return None
    elif isinstance(old, list):   # an empty one
        new = [1]
    else:
        return None
    t = e
    for k in p[:-1]:
        t = t[k]
    t[p[-1]] = new
    return p


def main():
    for prop in props or sorted(check.PROPS):
        P = check.PROPS[prop](check.Run, check.MC)
        scratch = tempfile.mkdtemp(prefix="corrupt-")
        stats = dict(models=[], mc_states=0, mc_transitions=0, tr_states=0, tr_transitions=0, sessions=0)
        try:
            drv = {r: check.build(scratch, r) for r in set(x.race for x in P["runs"])}
            corpus = os.path.join(scratch, "corpus.ndjson")
            with open(corpus, "w") as c:
                for m in P["mc"]:
                    if m.corpus and "quick" in m.tiers:
                        o = check.run_mc(m, scratch, stats)
                        ls = open(o).read().splitlines()
                        c.write("\n".join(rnd.sample(ls, min(len(ls), 300))) + "\n")
            for run in P["runs"]:
                if run.race:
                    continue
                run.n = max(1, run.n // 20)
                lines = check.record(prop, run, drv[run.race], scratch, corpus, stats)
                ses = [json.loads(x) for x in lines if len(x) < 200000]
                bykind = {}
                for s in ses:
                    for i, e in enumerate(s["ev"]):
                        k = e["e"] + (":" + e["op"] if isinstance(e.get("op"), str) else "")
                        for f in e:
                            if f not in ("e", "op"):
                                bykind.setdefault((k, f), []).append((s, i))
                out, tags = [], []
                for (k, f), occ in sorted(bykind.items()):
                    tries = 0
                    done = 0
                    while done < N and tries < 4 * N:
                        tries += 1
                        s, i = rnd.choice(occ)
                        # stateless sessions may be cut to the one event
                        x = {**{a: b for a, b in s.items() if a != "ev"}, "ev": copy.deepcopy(s["ev"])}
                        if run.spec in ("TraceText", "TraceCodec", "TraceOid"):
                            x["ev"] = [x["ev"][i]]
                            j = 0
                        else:
                            j = i
                        p = corrupt(x["ev"][j], f)
                        if p is None:
                            continue
                        done += 1
                        out.append(json.dumps(x))
                        tags.append((k, f, p, x["ev"][j]))
                rej, bad = set(), {}
                B = 400
                for b in range(0, len(out), B):
                    part = list(enumerate(out))[b:b + B]
                    try:
                        r, _ = check.validate_batch(run, scratch, 0, part)
                        rej |= {i for i, _ in r}
                    except check.CheckError as ex:   # the corruption made a value TLC cannot evaluate: one by one is too slow; halve
                        for i, x in part:
                            bad.setdefault(i, str(ex)[-200:])
                        for h in range(0, len(part), 8):
                            try:
                                r, _ = check.validate_batch(run, scratch, 0, part[h:h + 8])
                                rej |= {i for i, _ in r}
                                for i, _ in part[h:h + 8]:
                                    bad.pop(i, None)
                            except check.CheckError:
                                pass
                res = {}
                for i, (k, f, p, e) in enumerate(tags):
                    d = res.setdefault((k, f), [0, 0, 0, None])
                    d[0] += 1
                    if i in bad:
                        d[2] += 1
                    elif i in rej:
                        d[1] += 1
                    else:
                        d[3] = (p, e)
                for (k, f), (n, r, b, ex) in sorted(res.items()):
                    print("%s %-22s %-8s rejected %3d/%3d%s%s" % (prop, k, f, r, n, " (not evaluated %d)" % b if b else "",
                          "" if r + b == n else "   accepted e.g. " + str(ex[0]) + " " + json.dumps(ex[1])[:int(os.environ.get("W", "160"))]), flush=True)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)


main()
