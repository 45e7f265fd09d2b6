#!/usr/bin/env python3
"""Writes the seeded bugs of defs*.py into /verif/seeded from a scratch copy of
/repo. usage: mkseeds.py SCRATCH [ID...]"""
import re, glob, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, "..", "..")
scratch = sys.argv[1]
ids = sys.argv[2:]
seeds = []
def seed(id, prop, file, edits, main, needs, breaks):
    seeds.append((id, prop, file, edits, main, needs, breaks))
for f in sorted(glob.glob(os.path.join(HERE, "defs*.py"))):
    exec(open(f).read())
sh = lambda *a, **k: subprocess.run(a, check=True, **k)
for id, prop, file, edits, main, needs, breaks in seeds:
    if ids and id not in ids:
        continue
    sh("git", "-C", scratch, "checkout", "-q", ".")
    if isinstance(edits, tuple):
        edits = [edits]
    for e in edits:
        fn, old, new = (file,) + e[:2] if len(e) < 3 or isinstance(e[2], int) else e
        n = e[2] if len(e) == 3 and isinstance(e[2], int) else 0
        p = os.path.join(scratch, fn)
        s = open(p).read()
        c = s.count(old)
        if n == 0 and c != 1:
            sys.exit("%s: %d occurrences of %r" % (id, c, old))
        if n == 0:
            s = s.replace(old, new)
        else:
            i = -1
            for _ in range(n):
                i = s.index(old, i + 1)
            s = s[:i] + new + s[i+len(old):]
        open(p, "w").write(s)
    d = os.path.join(ROOT, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "world"))
    diff = subprocess.run(["git", "-C", scratch, "diff"], check=True, stdout=subprocess.PIPE).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    for f in glob.glob(os.path.join(ROOT, "harness/world/*.go")):
        shutil.copy(f, os.path.join(d, "world"))
    shutil.copy(os.path.join(HERE, "kit.go"), d)
    shutil.copy(os.path.join(HERE, "demo.sh"), d)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    shutil.copy(os.path.join(ROOT, "harness/go.sum"), os.path.join(d, "demo.sum"))
    shutil.copy(os.path.join(ROOT, "harness/fallback/repo.mod"), d)
    open(os.path.join(d, "demo.mod"), "w").write("""module demo

go 1.23.0

require (
	github.com/golang-jwt/jwt v3.2.2+incompatible
	github.com/lyokato/goidc v0.0.0
)

require github.com/google/go-querystring v1.2.0 // indirect

replace github.com/lyokato/goidc => REPO
""")
    if prop == "L06":
        # the JWK module is not installed: a stand-in lies beside the demonstration
        shutil.copytree(os.path.join(ROOT, "harness/shim/go-jwx"), os.path.join(d, "go-jwx"))
        with open(os.path.join(d, "demo.mod"), "a") as f:
            f.write("""
require github.com/lestrrat/go-jwx v0.0.0

replace github.com/lestrrat/go-jwx => ./go-jwx
""")
    head = 'package main\n\n'
    if not main.lstrip().startswith("import"):
        imps = [(k, v) for k, v in (("world.", "demo/world"), ("prompt.", "github.com/lyokato/goidc/prompt"), ("grant.", "github.com/lyokato/goidc/grant"),
            ("authorization.", "github.com/lyokato/goidc/authorization"), ("strings.", "strings"), ("url.", "net/url"), ("rsa.", "crypto/rsa"), ("x509.", "crypto/x509"), ("pem.", "encoding/pem"), ("http.", "net/http"), ("goidc.", "github.com/lyokato/goidc"),
            ("time.", "time"), ("fmt.", "fmt"), ("json.", "encoding/json"), ("scope.", "github.com/lyokato/goidc/scope"), ("pkce.", "github.com/lyokato/goidc/pkce"),
            ("flow.", "github.com/lyokato/goidc/flow"), ("oer.", "github.com/lyokato/goidc/oauth_error"), ("log.", "github.com/lyokato/goidc/log"), ("os.", "os"), ("base64.", "encoding/base64"), ("basic_auth.", "github.com/lyokato/goidc/basic_auth"), ("crypto.", "github.com/lyokato/goidc/crypto")) if re.search(r"(?<![\w.\"])" + re.escape(k), main)]
        head += "".join('import %s"%s"\n' % ("goidc " if k == "goidc." else "oer " if k == "oer." else "", v) for k, v in imps) + "\n"
        main = "func main() {\n" + main.strip("\n") + "\n}\n"
    open(os.path.join(d, "main.go"), "w").write(head + main)
    subprocess.run(["gofmt", "-w", os.path.join(d, "main.go")])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    sh("git", "-C", scratch, "checkout", "-q", ".")
    print("wrote", id)
