"""Developer tool: run a list of mutants.  python tools/muts.py PID FILE   where FILE holds blocks  path|||old|||new  separated by lines of ==="""
import os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
def go(b):
    f, o, n, *rest = b.strip('\n').split('|||')
    r = subprocess.run(['python3', 'tools/mut.py', sys.argv[1], f.strip(), o, n, *[x.strip() if i % 3 == 0 else x for i, x in enumerate(rest)]], capture_output=True, text=True, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    out = (r.stdout + r.stderr).strip().split('\n')
    return '%s: %s -> %s\n   %s' % ('CAUGHT' if out[0].startswith('1') and 'VIOLATION' in r.stdout else 'MISSED', o.strip()[:60].replace('\n', '\\n'), n.strip()[:60].replace('\n', '\\n'), '\n   '.join(x[:240] for x in out[:3]))
with ThreadPoolExecutor(4) as p:
    for x in p.map(go, [b for b in open(sys.argv[2]).read().split('\n===\n') if b.strip()]):
        print(x)
