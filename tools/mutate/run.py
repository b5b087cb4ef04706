#!/usr/bin/env python3
"""run.py MUTATE-BINARY OUT.tsv FILE...: which small changes to FILE... (in /repo) compile and pass the stable tests.
Works in scratch copies below /tmp/mw; development tool, no check needs it."""
import subprocess, sys, os, shutil, threading, queue
mutate, out, files = sys.argv[1], sys.argv[2], sys.argv[3:]
W = int(os.environ.get("W", "4"))
env = dict(os.environ, GOROOT="/opt/veriftools/go1.23.12", GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOMAXPROCS="2")
env["PATH"] = "/opt/veriftools/go1.23.12/bin:" + env["PATH"]
done = set()
if os.path.exists(out):
    done = {tuple(l.split("\t")[:2]) for l in open(out)}
q = queue.Queue()
for f in files:
    for l in subprocess.run([mutate, "/repo/" + f], capture_output=True, text=True).stdout.splitlines():
        k, line, desc = l.split("\t", 2)
        if (f, k) not in done and (int(k) % int(os.environ.get("EVERY", "1")) == 0):
            q.put((f, k, line, desc))
lock = threading.Lock()
def sh(cmd, cwd, t=120):
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=t).returncode
    except subprocess.TimeoutExpired:
        return 99
EX = r'''go build -o ../bin%d/gotsrpc ./cmd/gotsrpc || exit 1
find example \( -name '*_gen.go' -o -path '*/client/src/service-*.ts' \) -delete
for e in basic errors monitor nullable time union; do (cd example/$e && timeout 30 ../../../bin%d/gotsrpc gotsrpc.yml) || exit 1; done
git diff --quiet -- example'''
def work(n):
    d = "/tmp/mw/r%d/gotsrpc" % n
    os.makedirs(os.path.dirname(d), exist_ok=True)
    os.makedirs("/tmp/mw/r%d/bin%d" % (n, n), exist_ok=True)
    if not os.path.exists(d): subprocess.run(["cp", "-a", "/repo", d])
    sh("git checkout -q -- . && git clean -fdq", d)
    while True:
        try: f, k, line, desc = q.get_nowait()
        except queue.Empty: return
        r = subprocess.run([mutate, "/repo/" + f, k], capture_output=True)
        open(d + "/" + f, "wb").write(r.stdout)
        res = "SURVIVED"
        if sh("go build ./...", d): res = "nobuild"
        elif sh("go test -vet=off -count=1 -timeout 60s ./...", d): res = "test"
        elif sh(EX % (n, n), d): res = "example"
        sh("git checkout -q -- .", d)
        with lock:
            open(out, "a").write("\t".join([f, k, line, res, desc]) + "\n")
ts = [threading.Thread(target=work, args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
