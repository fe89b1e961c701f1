"""Development aid: write seeded bugs (tools/seeds.py) to /verif/seeded and try their demos.
usage: seed.py [ID...]  -- for each: make patch.diff, build in a scratch copy with and without, run the demo."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from seeds import S
OUT = '/verif/seeded'
def build(r):
    p = subprocess.run('. /opt/vp/env.sh; cd %s; make -j8 VERSION="$(cat version.txt)" lib/libnotmuch.so notmuch notmuch-shared util/libnotmuch_util.a >/tmp/seedbuild.log 2>&1' % r, shell=True, executable='/bin/bash')
    return p.returncode
def main():
    ids = sys.argv[1:] or [i for i in S if not os.path.exists(OUT + '/' + i)]
    d = tempfile.mkdtemp(prefix='seed-')
    r = d + '/repo'
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    for i in ids:
        s = S[i]; o = OUT + '/' + i
        shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        for f, a, b in s['edits']:
            t = open(r + '/' + f).read()
            assert t.count(a) == 1, (i, f, a, t.count(a))
            open(r + '/' + f, 'w').write(t.replace(a, b))
        diff = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True).stdout
        open(o + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        for n, c in s['files'].items():
            open(o + '/' + n, 'w').write(c)
        os.chmod(o + '/demo.sh', 0o755)
        rc = build(r)
        x = subprocess.run(['bash', o + '/demo.sh'], cwd=r, capture_output=True, text=True)
        subprocess.run(['git', '-C', r, 'checkout', '-q', '--', '.'])
        rc2 = build(r)
        y = subprocess.run(['bash', o + '/demo.sh'], cwd=r, capture_output=True, text=True)
        ok = rc == 0 and rc2 == 0 and x.returncode != 0 and y.returncode == 0
        print(i, 'OK' if ok else 'BAD', 'build', rc, rc2, 'patched', x.returncode, 'clean', y.returncode)
        if not ok: print(x.stdout[-600:], x.stderr[-600:], y.stdout[-600:], y.stderr[-600:])
        else: print('   ', (x.stdout + x.stderr).strip()[-200:])
    shutil.rmtree(d)
main()
