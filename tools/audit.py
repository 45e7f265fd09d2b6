#!/usr/bin/env python3
"""Sensitivity audit: makes small changes to goidc's files one at a time and
records which properties report each.

usage: audit.py OUT.tsv IDS DIV FILE[:N,N...]...   (IDS: A01,A02,... ; DIV: run 1/DIV of the quick cases)

Works through overlays; /repo is never changed.
"""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

repo = os.environ.get("VERIF_REPO", "/repo")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off", GOFLAGS="-mod=readonly", GOMAXPROCS="2")
stable = "authorization basic_auth flow log oauth_error pkce prompt response_mode scope".split()
tmp = tempfile.mkdtemp(prefix="audit.")
mutate = tmp + "/mutate"
subprocess.run(["go", "build", "-o", mutate, "main.go"], cwd=here + "/tools/mutate", check=True, env=dict(env, GO111MODULE="off", GOFLAGS=""))

harness = tmp + "/harness"
shutil.copytree(here + "/harness", harness)

out, ids, div = sys.argv[1], sys.argv[2], sys.argv[3]
jobs = []
for a in sys.argv[4:]:
    f, _, ns = a.partition(":")
    l = subprocess.run([mutate, f"{repo}/{f}"], capture_output=True, text=True, check=True).stdout.splitlines()
    for x in l:
        n, line, what = x.split("\t", 2)
        if not ns or n in ns.split(","):
            jobs.append((f, n, line, what))

def one(j):
    f, n, line, what = j
    d = tempfile.mkdtemp(dir=tmp)
    try:
        m = d + "/m.go"
        subprocess.run([mutate, f"{repo}/{f}", n, m], check=True)
        rep = {f"{repo}/jwk_endpoint.go": "", f"{repo}/{f}": m}
        json.dump({"Replace": rep}, open(d + "/ov.json", "w"))
        r = subprocess.run(["go", "test", "-c", "-vet=off", "-overlay", d + "/ov.json", "-o", d + "/t", "./props"], cwd=harness, env=env, capture_output=True, text=True)
        if r.returncode:
            return j, "nocompile", ""
        pk = f.split("/")[0]
        if pk in stable:
            r = subprocess.run(["go", "test", "-overlay", d + "/ov.json"] + ["./" + s for s in stable], cwd=repo, env=env, capture_output=True, text=True)
            if r.returncode:
                return j, "tests", ""
        e = dict(env, VERIF_AUDIT=ids, VERIF_DIV=div, VERIF_STATUS=d + "/st")
        try:
            r = subprocess.run([d + "/t", "-test.run", "^TestAudit$", "-rapid.nofailfile", "-rapid.seed=7", "-rapid.shrinktime=1ms"], cwd=d, env=e, capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return j, "timeout", open(d + "/st").read().replace("\n", " | ")
        s = open(d + "/st").read()
        if not s.endswith("done\n"):
            return j, "died", s.replace("\n", " | ") + r.stdout[-300:].replace("\n", " ")
        fired = [x.split("\t")[0] for x in s.splitlines()[:-1]]
        return j, ",".join(fired) or "SURVIVED", " | ".join(x.split("\t")[1][:160] for x in s.splitlines()[:-1])
    finally:
        shutil.rmtree(d, ignore_errors=True)

try:
    with open(out, "a") as o, ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        for (f, n, line, what), v, msg in ex.map(one, jobs):
            o.write("\t".join([f, n, line, v, what, msg]) + "\n")
            o.flush()
finally:
    shutil.rmtree(tmp, ignore_errors=True)
