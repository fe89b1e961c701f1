"""Development aid: run checks against a scratch copy of /repo with one textual change.
usage: mut.py IDS FILE OLD NEW   (IDS comma separated)   or   mut.py IDS -p PATCH"""
import os, shutil, subprocess, sys, tempfile, time
ids = sys.argv[1].split(',')
d = tempfile.mkdtemp(prefix='mut-')
subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
r = d + '/repo'
if sys.argv[2] == '-p':
    subprocess.run(['git', '-C', r, 'apply', os.path.abspath(sys.argv[3])], check=True)
else:
    f = os.path.join(r, sys.argv[2])
    s = open(f).read()
    old, new = sys.argv[3].encode().decode('unicode_escape'), sys.argv[4].encode().decode('unicode_escape')
    assert s.count(old) >= 1, 'pattern not found'
    open(f, 'w').write(s.replace(old, new, 1))
for i in ids:
    t = time.time()
    p = subprocess.run(['python3-vt', '/verif/nmv/run.py', i], env=dict(os.environ, NMV_REPO=r), capture_output=True, text=True)
    print(i, 'exit', p.returncode, '%.0fs' % (time.time() - t))
    print('\n'.join('   ' + l[:400] for l in p.stdout.split('\n')[1:] if l))
    if p.stderr.strip(): print(p.stderr[-1500:])
shutil.rmtree(d)
