"""mkseed.seed(id, prop, [(file, old, new), ...], needs, breaks, demo_c or demo_sh) writes seeded/<id>/ against /repo HEAD."""
import os, json, subprocess, tempfile, shutil
SH = '''#!/bin/bash
# cwd: the built repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
gcc -O1 -g -w %s -I_build/src/maa "$D/demo.c" _build/src/maa/libmaa.a -lm -o "$T/demo" || exit 98
cd "$T" && timeout 60 ./demo
'''
ASAN = '''#!/bin/bash
# cwd: the built repository; the library's sources are compiled with AddressSanitizer
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
cd _build/src/maa && S=$(ls *.c | grep -v -e alloca.c -e rnd.c -e mkrnd.c -e arggram.c) && gcc -O1 -g -w -fsanitize=address -DHAVE_HEADER_SYS_RESOURCE_H=1 -DHAVE_HEADER_ALLOCA_H=1 -DSIZEOF_LONG=8 -DMAA_MAJOR=4 -DMAA_MINOR=1 -DMAA_TEENY=0 -I. "$D/demo.c" $S -lm -o "$T/demo" || exit 98
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''
def seed(id, prop, edits, needs, breaks, demo, sh=None, flags='', asan=False):
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(); 
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/w', 'HEAD'])
    try:
        for f, o, n in edits:
            p = w + '/w/' + f; s = open(p).read()
            assert s.count(o) >= 1, (id, f, o)
            assert s.count(o) == 1, (id, 'ambiguous', s.count(o), o)
            open(p, 'w').write(s.replace(o, n, 1))
        diff = subprocess.check_output(['git', '-C', w + '/w', 'diff'], text=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/w']); shutil.rmtree(w)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.c', 'w').write(demo) if demo else None
    open(d + '/demo.sh', 'w').write(sh or (ASAN if asan else SH % flags)); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
