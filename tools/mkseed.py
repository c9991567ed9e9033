"""Make a planted bug: mkseed.py SPEC.py, where SPEC.py defines
id, property, needs, breaks, edits=[(file, old, new)], and scripts=[Helena scripts]
(the demo compares their results with those of the clean tree) or main='''Go main package'''.
Validates it in a scratch copy: builds, passes the tests, the demo tells the trees apart."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif/seeded"
MAIN = '''package main

import (
	"fmt"
	"helena/core"
	"helena/helena_dialect"
	"os"
	"strings"
)

func run(s string) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("PANIC %v", r)
		}
	}()
	scope := helena_dialect.NewRootScope(nil)
	helena_dialect.InitCommands(scope)
	pr := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(s), nil)
	if !pr.Success {
		return "PARSE " + pr.Message
	}
	r := scope.PrepareProcess(scope.Compile(*pr.Script)).Run()
	return fmt.Sprintf("%d %+v", r.Code, r.Value)
}

func main() {
	b, _ := os.ReadFile(os.Args[1])
	bad := 0
	for _, c := range strings.Split(strings.TrimRight(string(b), "\\n"), "\\n====\\n") {
		p := strings.SplitN(c, "\\n----\\n", 2)
		got := run(p[0])
		if len(p) == 1 {
			fmt.Println(p[0] + "\\n----\\n" + got + "\\n====")
			continue
		}
		if got != strings.TrimRight(p[1], "\\n") {
			fmt.Printf("%s\\n  expected %s\\n  got      %s\\n", p[0], p[1], got)
			bad = 1
		}
	}
	os.Exit(bad)
}
'''
DEMO = '''#!/bin/bash
# Runs main.go of this folder against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
root=$(pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%s/src/zz_demo/main.go": "%s/main.go.txt"}}' "$root" "$here" > "$t/o.json"
cd "$root/src" && go build -overlay "$t/o.json" -o "$t/demo" ./zz_demo || exit 2
cd "$t" && timeout 60 ./demo "$here/cases.txt"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = f"{V}/{spec['id']}"
os.makedirs(d, exist_ok=True)
scratch = tempfile.mkdtemp(prefix="seed")
try:
    sh(f"cp -a /repo {scratch}/repo")
    r = f"{scratch}/repo"
    sh("git checkout -q -- .", cwd=r)
    open(f"{d}/main.go.txt", "w").write(spec.get("main", MAIN))
    open(f"{d}/demo.sh", "w").write(DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)
    if "scripts" in spec:
        open(f"{d}/cases.txt", "w").write("\n====\n".join(spec["scripts"]) + "\n")
        o = sh(f"bash {d}/demo.sh", cwd=r)
        open(f"{d}/cases.txt", "w").write(o.stdout.rstrip("\n").removesuffix("\n====") + "\n")
        print(o.stdout, o.stderr)
    o = sh(f"bash {d}/demo.sh", cwd=r)
    clean = o.returncode
    print("clean:", clean, o.stdout[-500:], o.stderr[-500:])
    for f, old, new in spec["edits"]:
        p = f"{r}/src/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    o = sh(". /opt/vp/env.sh; gofmt -l src; cd src && go vet ./core ./helena_dialect ./picol_dialect 2>&1 | tail -5; go build ./... && go test -count=1 ./... 2>&1 | grep -v 'no test files' | tail -15", cwd=r)
    print(o.stdout, o.stderr)
    tests = "FAIL" not in o.stdout and o.returncode == 0
    p = sh("git diff", cwd=r).stdout
    open(f"{d}/patch.diff", "w").write(p)
    o = sh(f"bash {d}/demo.sh", cwd=r)
    print("patched:", o.returncode, o.stdout[-1500:], o.stderr[-300:])
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    ok = clean == 0 and o.returncode not in (0, 2) and tests and p
    print("VALID" if ok else "INVALID")
    if not ok and "-k" not in sys.argv:
        shutil.rmtree(d)
finally:
    shutil.rmtree(scratch)
