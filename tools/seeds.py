#!/usr/bin/env python3
"""Dev tool: create and confirm a planted bug.
usage: seeds.py SPEC.py...   each SPEC defines ID, PROP, FILE, EDITS=[(old,new)], NEEDS, BREAKS, PKG, and DEMO (a test) or SH (shell lines run with the program of PKG as $bin)
(written to /verif/seeded/ID; kept only if it builds, the stable tests pass with it, and the demo tells the trees apart)"""
import json, os, shutil, subprocess, sys, tempfile
SEED = '/verif/seeded'
DEMO_SH = '''#!/bin/bash
# Run in the repository root; exit 0 if the behaviour is right.
d="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.25.14/bin:$PATH
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOENV=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$repo/go.mod" "$tmp/m.mod" && cp "$repo/go.sum" "$tmp/m.sum" || exit 2
GOFLAGS=-mod=mod go mod edit -replace=github.com/mewmew/mathclass=/opt/vp/standin/mathclass "$tmp/m.mod" || exit 2
export GOFLAGS="-mod=mod -modfile=$tmp/m.mod"
export DEMO_TMP="$tmp"
echo '{"Replace":{"'"$repo"'/PKG/zz_demo_test.go":"'"$d"'/demo_test.go.txt"}}' > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./PKG
'''
RUN_SH = '''bin="$tmp/program"
go build -o "$bin" ./PKG || exit 2
work="$tmp/work"
mkdir -p "$work/home" "$work/project" || exit 2
cd "$work" || exit 2
export HOME="$work/home" XDG_CACHE_HOME="$work/home/.cache"
packages="$XDG_CACHE_HOME/typst/packages"
# package NAMESPACE/NAME VERSION makes a package; its entry point is read from the standard input.
package() {
	local p="$packages/$1/$2"
	mkdir -p "$p" || exit 2
	printf '[package]\\nname = "%s"\\nversion = "%s"\\nentrypoint = "lib.typ"\\n' "${1#*/}" "$2" > "$p/typst.toml"
	cat > "$p/lib.typ"
}
'''
SYN = r'''package syntax

import (
	"fmt"
	"strings"
	"testing"
)

// dump prints a tree: kinds, and the text of leaves.
func dump(n *SyntaxNode) string {
	if len(n.children()) == 0 {
		return fmt.Sprintf("%s%q", n.kind().Name(), n.text())
	}
	var parts []string
	for _, c := range n.children() {
		parts = append(parts, dump(c))
	}
	return n.kind().Name() + "(" + strings.Join(parts, " ") + ")"
}

func check(t *testing.T, what string, got, want any) {
	t.Helper()
	if g, w := fmt.Sprint(got), fmt.Sprint(want); g != w {
		t.Errorf("%s:\n got %s\nwant %s", what, g, w)
	}
}

'''
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.25.14/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOSUMDB='off', GOPROXY='off', GOWORK='off', GOENV='off')
def sh(cmd, cwd, env=ENV):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True)
def stable(cwd):
    t = tempfile.mkdtemp()
    sh(f'cp go.mod {t}/m.mod; cp go.sum {t}/m.sum; go mod edit -replace=github.com/mewmew/mathclass=/opt/vp/standin/mathclass {t}/m.mod', cwd)
    env = dict(ENV, GOFLAGS=f'-mod=mod -modfile={t}/m.mod')
    b = sh('go build ./...', cwd, env)
    if b.returncode: shutil.rmtree(t); return 'build: ' + b.stderr
    o = sh('go test -json -vet=off -count=1 ./...', cwd, env).stdout
    shutil.rmtree(t)
    ok = set()
    for l in o.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get('Action') == 'pass' and e.get('Test'): ok.add((e['Package'], e['Test']))
    return ok
def names():
    return json.load(open('/opt/vp/BASELINE.json'))
def main():
    base = None
    for spec in sys.argv[1:]:
        g = {'SYN': SYN}
        exec(open(spec).read(), g)
        d = f"{SEED}/{g['ID']}"
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix='seed')
        sh(f'cp -a /repo {w}/repo', '/')
        r = w + '/repo'
        if base is None: base = stable(r)
        edits = [(f if len(e) == 3 else g['FILE'], *e[-2:]) for e in g['EDITS'] for f in [e[0]]]
        for f, old, new in edits:
            s = open(f'{r}/{f}').read()
            assert s.count(old) == 1, (g['ID'], f, s.count(old), old)
            open(f'{r}/{f}', 'w').write(s.replace(old, new))
        # touched original lines must come from the base commit
        diff = sh('git diff', r).stdout
        open(d + '/patch.diff', 'w').write(diff)
        for l in sh('git diff -U0', r).stdout.splitlines():
            if l.startswith('@@'): rng = l.split()[1][1:]
        text = DEMO_SH
        if 'SH' in g:
            text = text[:text.index("echo '{")] + RUN_SH + g['SH'].lstrip()
        else:
            open(d + '/demo_test.go.txt', 'w').write(g['DEMO'].lstrip())
        open(d + '/demo.sh', 'w').write(text.replace('PKG', g['PKG'])); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        after = stable(r)
        a = sh(f'bash {d}/demo.sh', '/repo'); b = sh(f'bash {d}/demo.sh', r)
        lost = (base - after) if isinstance(after, set) else after
        ok = not lost and a.returncode == 0 and b.returncode != 0 and 'build failed' not in b.stdout
        print(g['ID'], 'OK' if ok else 'BAD', 'lost:', lost, 'clean:', a.returncode, 'patched:', b.returncode)
        if not ok: print(a.stdout[-1500:], a.stderr[-800:], '\n--- patched\n', b.stdout[-1500:], b.stderr[-500:])
        else: print('   ', [l for l in b.stdout.splitlines() if 'zz_demo' in l][:2])
        shutil.rmtree(w)
main()
