"""Developer tool: create /verif/seeded/<id>/ from a spec file.
usage: mkseed.py SPEC.py   where SPEC.py sets ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text)."""
import json, os, subprocess, sys, shutil, tempfile
def mk(spec):
    d = os.environ.get("SEED_DIR", "/verif/seeded") + f"/{spec['ID']}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
        for f, old, new in spec['EDITS']:
            p = f'{t}/r/{f}'
            s = open(p, newline='').read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff', '--no-color'], cwd=t + '/r', check=True, capture_output=True, text=True).stdout
        assert diff
        # originality: the removed lines must be in the base commit
        base = subprocess.run(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=t + '/r', capture_output=True, text=True).stdout.split()[-1]
        for f, old, new in spec['EDITS']:
            b = subprocess.run(['git', 'show', f'{base}:{f}'], cwd=t + '/r', capture_output=True, text=True).stdout
            bl = set(x.strip() for x in b.splitlines())
            cur = None
        for line in diff.splitlines():
            if line.startswith('-') and not line.startswith('---') and line[1:].strip() and line[1:].strip() not in bl:
                print('WARNING not original:', line)
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        shutil.rmtree(t)
    open(d + '/demo.py', 'w').write(spec['DEMO'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the built repository. exit 0 when the behaviour is right.\nHERE="$(cd "$(dirname "$0")" && pwd)"\n'
      'export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=agg\n'
      'W="$(mktemp -d)"; trap \'rm -rf "$W"\' EXIT\nexport NUMBA_CACHE_DIR="$W/nb" SCRATCH="$W"\n'
      'PYTHONPATH="$PWD" /opt/venv/bin/python "$HERE/demo.py"\n')
    json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    print('made', spec['ID'])
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    for spec in g['SPECS']:
        mk(spec)
