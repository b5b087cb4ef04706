#!/usr/bin/env python3
"""judge.py MUTATE-BINARY VF-BINARY RESULTS.tsv OUT.tsv [FILE...]: which of the surviving changes the checks notice"""
import subprocess, sys, os, re, time
mutate, vf, res, out = sys.argv[1:5]
only = sys.argv[5:]
CH = {"client.go": "C03 C04 C05 C06 C01 C16", "clienterror.go": "C15 C04", "httperror.go": "C15 C04", "error.go": "C12 C13 C14 C36",
 "transport.go": "C07 C04 C09 C14 C03 C01 C16", "gotsrpc.go": "C07 C08 C09 C10 C02 C27 C32 C23", "responsewriter.go": "C11", "instrumentation.go": "C10 C33",
 "unionext.go": "C17", "timeext.go": "C16", "code.go": "C34", "config/config.go": "C35 C30", "prometheus/prometheus.go": "C33", "http.go": "C03 C06",
 "build.go": "C37 C28 C29 C27 C30 C24 C32 C23", "servicereader.go": "C25 C37 C23 C26 C18 C19 C20 C24 C32 C01", "typereader.go": "C18 C20 C21 C22 C23 C26 C25 C17",
 "typescript.go": "C20 C21 C22 C26 C28 C30 C19 C23 C24", "typscriptclient.go": "C19 C20 C30", "go.go": "C38 C18 C19 C32 C30 C24 C31 C01 C02"}
base = os.environ.get("SCRATCH", "/tmp/mw"); d = base + "/c/gotsrpc"; v = base + "/verif"
os.makedirs(base + "/c", exist_ok=True)
if not os.path.exists(d): subprocess.run(["cp", "-a", "/repo", d])
done = {tuple(l.split("\t")[:2]) for l in open(out)} if os.path.exists(out) else set()
env = dict(os.environ, VERIF_SEED="1")
for l in open(res):
    f, k, line, r, desc = l.rstrip("\n").split("\t", 4)
    if r != "SURVIVED" or (f, k) in done or (only and f not in only): continue
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d)
    p = subprocess.run([mutate, "/repo/" + f, k], capture_output=True)
    open(d + "/" + f, "wb").write(p.stdout)
    verdict = "MISSED"; t = time.time()
    extra = []
    for c in CH[f].split():
        os.makedirs(v, exist_ok=True)
        p = subprocess.run(["timeout", "600", vf, "check", c, "-repo", d, "-verif", v, "-budget", "60"], capture_output=True, text=True, env=env)
        m = re.search("VIOLATION.*", p.stdout)
        if p.returncode == 1 and m: verdict = c; break
        if p.returncode not in (0, 1): extra.append("%s=%d" % (c, p.returncode))
        if "REDUCED" in p.stdout or "INCOMPLETE" in p.stdout: extra.append(c + "?")
    open(out, "a").write("\t".join([f, k, line, verdict, "%.0fs" % (time.time() - t), ",".join(extra), desc]) + "\n")
subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d)
