#!/usr/bin/env python3
"""Runs the checks against many small planted bugs, through overlays; /repo is
never changed.

usage: run.py DEFS.py [NAME...]   env: SEED (default 7), DIV (default 1), JOBS (default 6), ALL=1: all properties, REAL=1: run check.sh on a changed copy of the repository

DEFS.py calls bug(name, props, edits...) with edits (file, old, new[, nth]).
"""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
repo = os.environ.get("VERIF_REPO", "/repo")
here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off", GOFLAGS="-mod=readonly", GOMAXPROCS="2")
stable = "authorization basic_auth flow log oauth_error pkce prompt response_mode scope".split()
tmp = tempfile.mkdtemp(prefix="bugs.")
harness = tmp + "/harness"
shutil.copytree(here + "/harness", harness)
ALL = "A01 A02 A03 A04 A05 A06 A07 A08 A09 A10 A11 I01 I02 T01 T02 T03 T04 T05 T06 T07 T08 T09 T10 T11 R01 R02 R03 R04 X01 X02 X03 X05 L01 L02 L03 L04 L05 L07".split()
bugs = []
def bug(name, props, *edits):
    bugs.append((name, props.replace(",", " ").split(), edits))
exec(open(sys.argv[1]).read())
want = sys.argv[2:]

def one(b):
    name, props, edits = b
    d = tempfile.mkdtemp(dir=tmp)
    try:
        files = {}
        for e in edits:
            f, old, new = e[:3]
            nth = e[3] if len(e) > 3 else 0
            s = files.get(f) or open(f"{repo}/{f}").read()
            if old == "":
                s += new
            else:
                k = s.count(old)
                if k == 0 or (k > 1 and len(e) < 4):
                    return b, f"BADEDIT {k} matches: {f}: {old[:60]!r}", ""
                parts = s.split(old)
                if nth == "all":
                    s = new.join(parts)
                else:
                    s = old.join(parts[:nth+1]) + new + old.join(parts[nth+1:])
            files[f] = s
        rep = {f"{repo}/jwk_endpoint.go": ""}
        for f, s in files.items():
            # imports that the edits need
            for imp in ("strings", "sync", "net/url", "bytes", "time", "errors", "unicode", "sort", "fmt", "math", "strconv", "io/ioutil"):
                pk = imp.split("/")[-1]
                if pk + "." in s and f'"{imp}"' not in s and "goidc/" + imp + '"' not in s:
                    import re
                    if re.search(r"(?<![\w.])" + pk + r"\.[A-Z]", s):
                        s = s.replace("import (\n", f'import (\n\t"{imp}"\n', 1)
            p = d + "/" + f.replace("/", "_")
            open(p, "w").write(s)
            rep[f"{repo}/{f}"] = p
        json.dump({"Replace": rep}, open(d + "/ov.json", "w"))
        r = subprocess.run(["go", "test", "-c", "-vet=off", "-overlay", d + "/ov.json", "-o", d + "/t", "./props"], cwd=harness, env=env, capture_output=True, text=True)
        if r.returncode:
            return b, "NOCOMPILE", r.stdout[-600:] + r.stderr[-600:]
        r = subprocess.run(["go", "test", "-overlay", d + "/ov.json"] + ["./" + s for s in stable], cwd=repo, env=env, capture_output=True, text=True)
        if r.returncode:
            return b, "TESTS", ""
        if os.environ.get("REAL"):  # the registered checks, on a copy of the repository
            shutil.copytree(repo, d + "/repo", ignore=shutil.ignore_patterns(".git"))
            for f, s in files.items():
                shutil.copy(d + "/" + f.replace("/", "_"), d + "/repo/" + f)
            out = []
            for p in props:
                r = subprocess.run([here + "/check.sh", p], env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_EVIDENCE=d + "/ev.json", VERIF_REPLAYS=d + "/replays"), capture_output=True, text=True)
                out.append(p + ("=caught" if r.returncode == 1 else "=MISSED" if r.returncode == 0 else "=%d" % r.returncode))
            return b, " ".join(out), r.stdout[:200].replace("\n", " ")
        ids = ALL if os.environ.get("ALL") else props
        e = dict(env, VERIF_AUDIT=",".join(ids), VERIF_DIV=os.environ.get("DIV", "1"), VERIF_STATUS=d + "/st")
        open(d + "/st", "w").close()
        try:
            r = subprocess.run([d + "/t", "-test.run", "^TestAudit$", "-rapid.nofailfile", "-rapid.seed=" + os.environ.get("SEED", "7"), "-rapid.shrinktime=1ms"], cwd=d, env=e, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            return b, "TIMEOUT", open(d + "/st").read()
        s = open(d + "/st").read()
        if not s.endswith("done\n"):
            return b, "DIED", s + r.stdout[-300:]
        fired = {x.split("\t")[0]: x.split("\t")[1] for x in s.splitlines()[:-1]}
        miss = [p for p in props if p not in fired]
        return b, ("MISSED " + ",".join(miss) if miss else "ok") + (" | fired " + ",".join(fired) if miss or os.environ.get("ALL") else ""), "" if miss and not fired else " || ".join(v[:140] for v in list(fired.values())[:1])
    finally:
        shutil.rmtree(d, ignore_errors=True)

try:
    todo = [b for b in bugs if not want or b[0] in want or any(p in want for p in b[1])]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
        for (name, props, _), v, msg in ex.map(one, todo):
            print(f"{name:22} {','.join(props):12} {v}  {msg}", flush=True)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
