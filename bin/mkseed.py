#!/usr/bin/env python3
"""Create seeded/<id>/ from a description on stdin:
  id: / property: / needs: / breaks: / [flags:] lines, then for each edit
  'file: path' followed by <<<< old ==== new >>>> blocks, then 'demo:' and the C++ program."""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lines = sys.stdin.read().split('\n')
hdr = {}; edits = []; i = 0; cur = None; demo = None
while i < len(lines):
    l = lines[i]
    if l == 'demo:':
        demo = '\n'.join(lines[i + 1:]); break
    if l == '<<<<':
        a = lines.index('====', i); b = lines.index('>>>>', a)
        edits.append((cur, '\n'.join(lines[i + 1:a]), '\n'.join(lines[a + 1:b]))); i = b + 1; continue
    if ': ' in l:
        k, v = l.split(': ', 1)
        if k == 'file': cur = v
        else: hdr[k] = v
    i += 1
wt = tempfile.mkdtemp(prefix='mkseed')
subprocess.check_call(f'git -C {os.environ.get("BASE","/repo")} archive HEAD | tar -x -C {wt} && cd {wt} && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x', shell=True)
for f, o, n in edits:
    p = os.path.join(wt, f); s = open(p).read()
    assert s.count(o) == 1, (hdr['id'], f, s.count(o), o)
    open(p, 'w').write(s.replace(o, n))
d = os.path.join(V, 'seeded', hdr['id']); os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', wt, 'diff'], text=True))
shutil.rmtree(wt)
if demo is not None:
    open(d + '/demo.cpp', 'w').write(demo)
    flags = hdr.get('flags', '')
    open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# Run in the root of the repository, after its build. 0: the property holds in this program.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 0
trap 'rm -rf "$work"' EXIT
g++ -std=c++17 -w -g1 -O1 -include complex -include fstream -include boost/filesystem/fstream.hpp \\
	-I"$PWD/src/main/cpp" -I"$PWD/_build/src/main/cpp" "$here/demo.cpp" -o "$work/demo" \\
	{flags} -lboost_filesystem -lboost_system -lpthread -ldl -lrt || exit 2
export DEMO_DIR="$work"
cd "$work" && timeout 250 "$work/demo"
''')
json.dump({'property': hdr['property'], 'needs': hdr['needs'], 'what_it_breaks': hdr['breaks']}, open(d + '/meta.json', 'w'), indent=1)
rem = [l[1:] for l in open(d + '/patch.diff') if l.startswith('-') and not l.startswith('---')]
orig = ''.join(subprocess.run(['git', '-C', '/repo', 'show', 'c062b3a:' + f], capture_output=True, text=True).stdout for f in {e[0] for e in edits})
print(d, '' if rem and all(l in orig for l in rem if l.strip()) else 'NOT ONLY ORIGINAL LINES: %r' % [l for l in rem if l not in orig])
