#!/usr/bin/env python3
"""Development tool: plants random small changes in a scratch copy and lists
those that compile, pass the tests and are reported by none of the checks.

  mutate.py BINARY FILE[:first-last] N PROPERTY... 
"""
import os, random, re, shutil, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor
binary, spec, n, props = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4:]
file, _, rng = spec.partition(':')
lo, hi = (map(int, rng.split('-')) if rng else (1, 10**9))
src = open('/repo/' + file).read().split('\n')
random.seed(int(os.environ.get('SEED', '1')))
OPS = [
    (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'(?<![<=>!:+-])<(?![<=-])', '<='), (r'<=', '<'), (r'(?<![->=])>(?![>=])', '>='), (r'>=', '>'),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\+ 1\b', '+ 2'), (r'- 1\b', '- 0'), (r'\+', '-'), (r' - ', ' + '), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b2\b', '3'),
    (r'!(?=[a-z(])', ''), (r'\+\+', '--'), (r'\+=', '-='), (r'\bcontinue\b', 'break'), (r'\bbreak\b', 'continue'), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('),
    (r'SyntaxKind(\w+)', 'SyntaxKindIdent'), (r'SyntaxMode(\w+)', 'SyntaxModeMath'), (r'(\w+)Set\b', 'StmtSet'), (r"'(.)'", "'q'"), (r'"([^"]+)"', r'"\1x"'), (r'return true', 'return false'),
]
muts = []
infunc = False
for i, l in enumerate(src):
    if l.startswith('func '): infunc = True
    if not infunc or not (lo <= i + 1 <= hi): continue
    if l == '}': infunc = False
    c = l.split('//')[0]
    if not c.strip() or c.strip() in ('{', '}') or 'panic(' in c: continue
    for a, b in OPS:
        for m in re.finditer(a, c):
            nl = c[:m.start()] + m.expand(b) + c[m.end():]
            if nl != c: muts.append((i, nl))
    s = c.strip()
    if s.endswith(')') and not s.startswith(('return', 'if', 'for', 'case', 'func', 'switch')) or re.match(r'^[\w.\[\]]+ [-+|&]?= ', s) or s in ('continue', 'break'):
        muts.append((i, ''))
random.shuffle(muts)
muts = muts[:n]
env = dict(os.environ)
def one(k):
    i, nl = muts[k]
    d = f'/tmp/mut/{os.getpid()}.{k}'
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
    try:
        t = list(src); t[i] = nl
        open(f'{d}/{file}', 'w').write('\n'.join(t))
        e = '. /opt/vp/env.sh; cd ' + d + '; '
        pk = './' + os.path.dirname(file)
        b = subprocess.run(['bash', '-c', e + f'go build ./... && go vet {pk}'], capture_output=True, text=True)
        if b.returncode: return ('nobuild', i, nl)
        t = subprocess.run(['bash', '-c', e + "timeout 60 go test ./typst/syntax ./internal/stack -run 'TestExprDefault|TestHighlighting|TestMinimalManifest|TestParsePackageSpec|TestReparse|TestSet|TestSourceFile|TestSpan|TestVersionVersionMatch|Stack|Push|Pop'"], capture_output=True, text=True)
        if t.returncode: return ('tested', i, nl)
        for p in props:
            v = f'/tmp/mut/v{os.getpid()}.{k}'
            os.makedirs(v, exist_ok=True)
            try:
                r = subprocess.run([binary, '-property', p, '-verif', v, '-repo', d], capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return ('TIMEOUT ' + p, i, nl)
            finally:
                shutil.rmtree(v, ignore_errors=True)
            if r.returncode == 1 and 'VIOLATION' in r.stdout: 
                und = ' (undecided)' if 'undecided' in r.stdout else ''
                return ('caught ' + p + und, i, nl)
            if r.returncode: return (f'EXIT {r.returncode} ' + p, i, nl)
        return ('SURVIVED', i, nl)
    finally:
        shutil.rmtree(d, ignore_errors=True)
os.makedirs('/tmp/mut', exist_ok=True)
cnt = {}
with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for st, i, nl in ex.map(one, range(len(muts))):
        cnt[st.split()[0]] = cnt.get(st.split()[0], 0) + 1
        if st.split()[0] not in ('nobuild', 'tested', 'caught') or 'undecided' in st:
            print(f'{st} {file}:{i+1}\n  - {src[i].strip()}\n  + {nl.strip()}', flush=True)
print(cnt)
