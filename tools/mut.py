"""Developer tool: run a check against a scratch copy of /repo with textual edits.
   python tools/mut.py P02 FILE OLD NEW [FILE OLD NEW ...]   (OLD/NEW literal, \\n and \\t escapes)"""
import os, shutil, subprocess, sys, tempfile
pid = sys.argv[1]
e = sys.argv[2:]
d = tempfile.mkdtemp(prefix='mut')
try:
    shutil.copytree(os.environ.get('MUT_BASE', '/repo') + '/larch', d + '/larch', ignore=shutil.ignore_patterns('*.so', '*.c', '*.cpp', 'doc', 'data_warehouse', '__pycache__'))
    for i in range(0, len(e), 3):
        rel, old, new = e[i:i + 3]
        p = os.path.join(d, rel)
        s = open(p).read()
        old = old.replace('\\n', '\n').replace('\\t', '\t'); new = new.replace('\\n', '\n').replace('\\t', '\t')
        if old not in s:
            sys.exit('pattern not found: ' + old)
        open(p, 'w').write(s.replace(old, new, 1))
    for q in pid.split(','):
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'larchcheck', q, '--quick'], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=dict(os.environ, LARCHCHECK_REPO=d, LARCHCHECK_OUT=d + '/out'), capture_output=True, text=True)
        print(r.returncode, '\n'.join(l[:260] for l in (r.stdout + r.stderr).split('\n')[-8:]))
finally:
    shutil.rmtree(d)
