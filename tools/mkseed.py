#!/usr/bin/env python3
"""mkseed.py ID...: builds seeded/<ID>/ from tools/seeds/<ID>.py in a scratch clone (/tmp/mut).

A seed file defines: prop, needs, breaks, edits=[(file, old, new)...], pkg, test (Go source of an overlay test with TestSeededDemo).
Options: --notest skips the stable tests."""
import sys, os, subprocess, json, shutil, importlib.util
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUT = "/tmp/mut"
DEMO = '''#!/bin/bash
# Runs the demonstration as an overlay test of the package; cwd is /repo.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_seeded_demo_test.go" "$here/demo_test.go" > "$t/overlay.json"
exec 2>&1
go test -vet=off -count=1 -timeout 120s %(race)s-overlay "$t/overlay.json" -run 'TestSeededDemo$' ./%(pkg)s
'''
def sh(cmd, cwd=MUT, **k):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True, **k)
def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for v in (b.values() if isinstance(b, dict) else [b]):
        if isinstance(v, list) and len(v) > 100: return set(v)
    raise SystemExit("baseline?")
def main():
    notest = "--notest" in sys.argv
    if not os.path.isdir(MUT): subprocess.run(["git", "clone", "-q", "/repo", MUT], check=True)
    base = stable()
    for id in [a for a in sys.argv[1:] if not a.startswith("-")]:
        spec = importlib.util.spec_from_file_location("s", f"{root}/tools/seeds/{id}.py"); s = importlib.util.module_from_spec(spec)
        sys.dont_write_bytecode = True; spec.loader.exec_module(s)
        sh("git fetch -q /repo && git checkout -q -f FETCH_HEAD && git clean -fdq")
        d = f"{root}/seeded/{id}"; os.makedirs(d, exist_ok=True)
        open(d + "/demo_test.go", "w").write(s.test.lstrip("\n"))
        gen = getattr(s, "protos", None)
        for f in gen or []:
            os.makedirs(os.path.dirname(f"{d}/protos/{f}"), exist_ok=True); shutil.copy(f"{root}/gen/protos/{f}", f"{d}/protos/{f}")
        if gen:
            shutil.copy(f"{root}/vx/otel/otel.go", f"{d}/otel.txt")
            open(d + "/demo.sh", "w").write(open(root + "/tools/demo_gen.sh").read().replace("@PKG@", s.pkg).replace("@RACE@", "-race " if getattr(s, "race", False) else ""))
        else: open(d + "/demo.sh", "w").write(DEMO % {"pkg": s.pkg, "race": "-race " if getattr(s, "race", False) else ""})
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s.prop, "needs": s.needs, "what_it_breaks": s.breaks}, open(d + "/meta.json", "w"), indent=1); open(d + "/meta.json", "a").write("\n")
        r = sh(d + "/demo.sh")
        if r.returncode: print(id, "DEMO FAILS ON CLEAN", r.stdout[-1500:]); continue
        for f, a, b in s.edits:
            p = f"{MUT}/{f}"; t = open(p).read()
            if t.count(a) != 1: print(id, "EDIT MATCHES", t.count(a), repr(a)); break
            open(p, "w").write(t.replace(a, b))
        else:
            diff = subprocess.run(["git", "diff", "-U8"], cwd=MUT, capture_output=True, text=True).stdout
            open(d + "/patch.diff", "w").write(diff)
            r = sh("gofmt -l $(git diff --name-only); go build ./... ")
            if r.returncode or r.stdout: print(id, "BUILD", r.stdout, r.stderr[-1500:]); continue
            r = sh(d + "/demo.sh")
            if r.returncode == 0: print(id, "DEMO PASSES WITH BUG"); continue
            print(id, "demo:", [l for l in r.stdout.splitlines() if l.strip()][1:3])
            if not notest:
                sh("sed 's#/repo#/tmp/mut#g' /opt/vp/test.sh > /tmp/mut_test.sh; sed 's#/repo#/tmp/mut#g' /opt/vp/env.sh > /tmp/mut_env.sh; sed -i 's#/opt/vp/env.sh#/tmp/mut_env.sh#' /tmp/mut_test.sh")
                r = sh("bash /tmp/mut_test.sh /tmp/mut_out.json", timeout=1200)
                o = json.load(open("/tmp/mut_out.json")); passed = set()
                for k, v in o.items():
                    if k == "passed": passed = set(v)
                bad = sorted(base - passed)
                print(id, "tests:", "OK" if not bad else ("BROKEN %d %s" % (len(bad), bad[:4])))
        sh("git checkout -q -f .")
main()
