#!/usr/bin/env python3
"""mkseed.py SEEDFILE.py [id...]: confirm planted bugs in a scratch copy of /repo and
store them under /verif/seeded.  SEEDFILE defines SEEDS = {id: dict(prop, edits=[(file,old,new)], demo=C source, needs, breaks)}."""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# builds demo.c against the static library of the built tree in the current directory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -std=gnu99 -w -O1 %s -I include -I src -o "$t/demo" "$d/demo.c" src/.libs/libprotobluff.a -lpthread || exit 3
timeout 60 "$t/demo"
'''


def sh(c, cwd, **k): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    spec = importlib.util.spec_from_file_location('seeds', sys.argv[1]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
    base = json.load(open('/opt/vp/BASELINE.json'))
    for sid, s in mod.SEEDS.items():
        if sys.argv[2:] and sid not in sys.argv[2:]: continue
        d = os.path.join(V, 'seeded', sid)
        w = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
        try:
            dd = w + '/d'; os.makedirs(dd)
            open(dd + '/demo.c', 'w').write(s['demo'])
            open(dd + '/demo.sh', 'w').write(s.get('sh') or SH % s.get('cflags', ''))
            for n, t in s.get('files', {}).items(): open(dd + '/' + n, 'w').write(t)
            assert not sh('git status --porcelain', '/repo').stdout
            r0 = sh('bash %s/demo.sh' % dd, '/repo')
            try:
                for f, o, n in s['edits']:
                    t = open('/repo/' + f).read()
                    if t.count(o) != 1: raise SystemExit('%s: edit matches %d times in %s: %r' % (sid, t.count(o), f, o))
                    open('/repo/' + f, 'w').write(t.replace(o, n))
                p = sh('git diff', '/repo').stdout
                b = sh('bash /opt/vp/build.sh', '/repo')
                if b.returncode: print(sid, 'BUILD', b.stdout[-1500:]); continue
                r1 = sh('bash %s/demo.sh' % dd, '/repo')
                sh('bash /opt/vp/test.sh %s/o.json' % w, '/repo')
            finally:
                sh('git checkout -q -- .', '/repo'); sh('bash /opt/vp/build.sh', '/repo')
            got = set(json.load(open(w + '/o.json'))['passed'])
            miss = [x for x in base['stable'] if x not in got]
            ok = r0.returncode == 0 and r1.returncode not in (0, 3) and not miss
            print(sid, s['prop'], 'OK' if ok else 'NO', 'clean=%d bug=%d missing=%s' % (r0.returncode, r1.returncode, miss[:4]), (r0.stdout[-300:] if r0.returncode else ''), (r1.stdout[-200:]).strip().replace('\n', ' / '), flush=True)
            if ok:
                if os.path.isdir(d): shutil.rmtree(d)
                shutil.copytree(dd, d)
                open(d + '/patch.diff', 'w').write(p)
                json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        finally: shutil.rmtree(w)


main()
