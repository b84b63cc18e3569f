#!/usr/bin/env python3
"""plant.py ID PROP NEEDS BREAKS  FILE OLD NEW [FILE OLD NEW ...]
Make seeded/ID/patch.diff and meta.json by exact replacement in a scratch worktree."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def plant(id, prop, needs, breaks, edits, W='/tmp/plantw'):
    subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', W], stderr=subprocess.DEVNULL)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', W, 'HEAD'], check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(W, f)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w', newline='').write(s.replace(old, new))
        # at least one line of the original repository must change
        own = False
        for f, old, new in edits:
            bl = subprocess.run(['git', '-C', W, 'blame', '-s', 'HEAD', '--', f], capture_output=True, text=True, errors='replace').stdout.split('\n')
            base = {l.split(')', 1)[1].strip() for l in bl if l.startswith('^') and ')' in l}
            gone = [l.strip() for l in old.split('\n') if l.strip() and l not in new.split('\n')]
            own = own or any(l in base or any(l in b for b in base) for l in gone)
        assert own, 'only own lines change'
        d = os.path.join(H, 'seeded', id)
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(['git', '-C', W, 'diff'], capture_output=True, check=True).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', W], check=True)
    return d


def render_demo(d, body, shaders=None):
    """demo.sh that links the renderer and runs body (bash; $O scratch, render FILE.rib)"""
    T = os.path.join(H, 'tools', 'demo')
    subprocess.run(['cp', '-r', T + '/partio', T + '/mkaqsis.sh', T + '/logdspy.cpp', d], check=True)
    s = '''#!/bin/bash
# Renders small scenes with the renderer linked from the build and compares pixels.
H=$(cd "$(dirname "$0")" && pwd)
O=$(mktemp -d) || exit 2
trap 'rm -rf "$O"' EXIT
bash "$H/mkaqsis.sh" "$O" || exit 2
cd "$O" || exit 2
cat > .aqsisrc <<EOF
Option "display" "string log" ["$O/logdspy.so"] "string file" ["/repo/_build/main/tools/displays/file/file_dspy.so"]
Option "searchpath" "string display" ["/"] "string shader" ["$O"] "string texture" ["$O"] "string archive" ["$O"]
EOF
shader() { cat > "$O/$1.sl"; /repo/_build/main/tools/aqsl/aqsl -o "$O/$1.slx" "$O/$1.sl" || exit 2; }
render() { timeout 120 ./aqsis -nc -v 1 "$@"; }
'''
    open(os.path.join(d, 'demo.sh'), 'w').write(s + body)


def lib_demo(d, cpp, libs, extra=''):
    """demo.sh that compiles demo.cpp against the built libraries and runs it"""
    open(os.path.join(d, 'demo.cpp'), 'w').write(cpp)
    s = '''#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd)
O=$(mktemp -d) || exit 2
trap 'rm -rf "$O"' EXIT
B=/repo/_build/main
L=""
for l in %s; do L="$L $B/libs/$l/libaqsis_$l.so -Wl,-rpath,$B/libs/$l"; done
g++ -w -O1 -I/repo/include -I$B/include -I/repo/libs/riutil -I/repo/libs/tex/filtering -I/usr/include/OpenEXR -I/usr/include/Imath "$H/demo.cpp" -o "$O/demo" $L %s || exit 2
cd "$O" && timeout 120 ./demo
''' % (libs, extra)
    open(os.path.join(d, 'demo.sh'), 'w').write(s)
