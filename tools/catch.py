"""catch.py [ids]: applies each planted bug to a scratch copy of the tree, runs its property's check there."""
import sys, os, json, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
S = '/verif/seeded'
def one(i):
    prop = json.load(open(f'{S}/{i}/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='catch_')
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/repo'])
        subprocess.run(['cp', '-a', '/verif/sa', '/verif/spec', '/verif/known-findings.jsonl', '/verif/MANIFEST.json', '/verif/properties.jsonl', w])
        a = subprocess.run(['git', '-C', w + '/repo', 'apply', f'{S}/{i}/patch.diff'], capture_output=True, text=True)
        if a.returncode: return i, prop, 'noapply ' + a.stderr
        r = subprocess.run(['unshare', '-Ur', '-m', 'bash', '-c', f'mount --bind {w}/repo /repo && cd {w} && python3 -m sa.check {prop}'], capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        return i, prop, f'rc={r.returncode} {v[:1]}' + ('' if r.returncode in (0, 1) else r.stdout[-300:] + r.stderr[-300:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
ids = sys.argv[1:] or sorted(os.listdir(S))
with ThreadPoolExecutor(7) as ex:
    for r in ex.map(one, ids): print(*r, flush=True)
