#!/usr/bin/env python3
"""Mutation run: small changes (tools/mutate) that build and pass the tests, against the checks.

mutrun.py WORKDIR SEED COUNT [FILE...]   WORKDIR keeps copies, corpora and the log results.tsv
Nothing here is read by a check; design models are run once and their corpora reused.
"""
import concurrent.futures as cf
import os, random, re, shutil, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODEC = "C05 C02 C01 C03 C04 C07 C06 C20 C18 C08 C09".split()
ORDER = {
    "agentx/close_reason.go": "C19 C18 C05 C03", "agentx/flags.go": "C19 C04 C03 C18", "agentx/pdu_tag.go": "C19 C04 C18 C03 C05",
    "agentx/encoding.go": " ".join(CODEC), "agentx/encoding_dbg.go": "C07 C20 C06", "agentx/payload_params.go": "C05 C18 C02 C07 C20 C03 C01 C04 C06",
    "agentx/pdu.go": "C05 C04 C02 C03 C07 C20 C18 C01 C06 C08 C09", "agentx/search_range.go": "C05 C18 C02 C07 C20",
    "agentx/varbind.go": "C05 C02 C07 C20 C03 C18", "asn/tag.go": "C19 C18 C03", "asn/value.go": "C18 C03 C02", "asn/varbind.go": "C18 C20",
    "generics/generics.go": "C17 C10 C18 C05", "hex/dump.go": "C17 C20", "internal/indent.go": "C18 C20", "internal/struct.go": "C18 C20",
    "internal/system.go": "C18 C20 C17 C05", "ipa/ip_address.go": "C18 C05", "logger/logger.go": "C20", "oid/name.go": "C19", "oid/node.go": "C13 C14 C15 C16",
    "oid/oid.go": "C10 C11 C12 C05", "oid/tree.go": "C13 C14 C15 C16", "pduerror/error.go": "C19 C18", "pduerror/error_string.go": "C19 C18",
}
WRAP = r'''
import sys, os, shutil
sys.path.insert(0, os.environ["VM"] + "/bin")
import check
cache = os.environ["CORPORA"]
real = check.run_mc
def run_mc(mc, scratch, stats):
    if not mc.corpus:
        return None
    f = os.path.join(cache, mc.cfg + ".corpus")
    if not os.path.exists(f):
        o = real(mc, scratch, stats)
        shutil.copy(o, f + ".%d" % os.getpid()); os.rename(f + ".%d" % os.getpid(), f)
    return f
check.run_mc = run_mc
try:
    sys.exit(check.main())
except check.CheckError as e:
    print("ERROR", e); sys.exit(2)
'''
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")


def sh(cmd, cwd, timeout=60):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    wd, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or sorted(ORDER)
    os.makedirs(wd + "/corpora", exist_ok=True)
    mut = wd + "/mutate.bin"
    subprocess.run(["go", "build", "-o", mut, "main.go"], cwd=VERIF + "/tools/mutate", env=dict(ENV, GO111MODULE="off"), check=True)
    vm = wd + "/vm"
    if os.path.exists(vm):
        shutil.rmtree(vm)
    os.makedirs(vm)
    for d in ("bin", "spec", "harness"):
        shutil.copytree(VERIF + "/" + d, vm + "/" + d)
    shutil.copy(VERIF + "/known_findings.txt", vm)
    with open(wd + "/wrap.py", "w") as h:
        h.write(WRAP)
    rng = random.Random(seed)
    picks = []
    for f in files:
        l = [x.split("\t") for x in sh([mut, "list", f], "/repo")[1].splitlines()]
        if f in ("agentx/encoding_dbg.go", "oid/name.go", "agentx/payload_params.go"):
            l = [x for x in l if "shortened" not in x[3]]
        rng.shuffle(l)
        picks += l[:count]
    rng.shuffle(picks)
    done = set()
    res = wd + "/results.tsv"
    if os.path.exists(res):
        with open(res) as h:
            done = set(tuple(x.split("\t")[:2]) for x in h)
    lock, tests = threading.Lock(), threading.Lock()

    def note(m, verdict):
        with lock, open(res, "a") as h:
            h.write("\t".join(m + [verdict]) + "\n")

    def one(k, m):
        f, i = m[0], m[1]
        if (f, i) in done:
            return
        r = "%s/r%d" % (wd, k)
        if not os.path.exists(r):
            subprocess.run(["cp", "-a", "/repo", r], check=True)
        sh(["git", "checkout", "-q", "--", "."], r)
        rc, o = sh([mut, "apply", f, i], r)
        if rc:
            return note(m, "unapplied")
        if sh(["go", "build", "./..."], r)[0]:
            return note(m, "nobuild")
        with tests:      # the demo test listens on a fixed port
            rc = sh(["go", "test", "-vet=off", "-count=1", "-timeout", "50s", "./..."], r, 90)[0]
        if rc:
            return note(m, "tests")
        errs = []
        for c in ORDER[f].split():
            env = dict(ENV, VERIF_REPO=r, VM=vm, CORPORA=wd + "/corpora", VERIF_SEED="1", VERIF_TIER="quick")
            try:
                p = subprocess.run([sys.executable, wd + "/wrap.py", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
            except subprocess.TimeoutExpired:
                errs.append(c + ":timeout")
                continue
            if p.returncode == 1 and "VIOLATION" in p.stdout:
                return note(m, "caught " + c + (" after " + ",".join(errs) if errs else ""))
            if p.returncode != 0:
                errs.append(c + ":rc%d" % p.returncode)
                with open(wd + "/errors.log", "a") as h:
                    h.write("=== %s %s\n%s\n" % (m, c, p.stdout[-3000:]))
        d = sh(["git", "diff", "-U1"], r)[1]
        with lock, open(wd + "/survivors.diff", "a") as h:
            h.write("##### %s %s\n%s\n" % (" ".join(m), errs, d))
        note(m, "SURVIVED " + ",".join(errs))

    free = list(range(int(os.environ.get("JOBS", "2"))))
    sem = threading.Semaphore(len(free))

    def job(m):
        with sem:
            with lock:
                k = free.pop()
            try:
                one(k, m)
            finally:
                with lock:
                    free.append(k)
    with cf.ThreadPoolExecutor(len(free)) as ex:
        list(ex.map(job, picks))


main()
