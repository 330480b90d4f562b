"""mkseed.py DEFS.py [ids...]: makes /verif/seeded/<id>/ from definitions, after confirming each in a scratch copy.

A definition: id, property, edits [(file, old, new)], needs, breaks, demo (python source run with the venv in cwd /repo).
Confirmed: changes at least one original line and none of ours, builds, the stable tests pass, the demo flips.
The build and test scripts name /repo, so they run in a private copy of the file tree reached through
`unshare -Ur -m` with the scratch copy bound over /repo.
"""
import sys, os, json, subprocess, shutil, runpy, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO, SEED = '/repo', '/verif/seeded'
DEMO_SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root LANG=C.UTF-8 PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYSPARK_PYTHON=/opt/venv/bin/python PYSPARK_DRIVER_PYTHON=/opt/venv/bin/python
export SPARK_LOCAL_IP=127.0.0.1 SPARK_LOCAL_HOSTNAME=localhost
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
export SCRATCH="$W" PYTHONPATH="$PWD"
timeout 240 /opt/venv/bin/python "$D/demo.py"
'''
BASE = subprocess.run(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def inns(scratch, cmd, timeout=600):
    return sh(['unshare', '-Ur', '-m', 'bash', '-c', f'mount --bind {scratch} /repo && cd /repo && {cmd}'], timeout=timeout)

def one(d):
    work = tempfile.mkdtemp(prefix='seed_')
    try:
        scratch = os.path.join(work, 'repo')
        sh(['cp', '-a', REPO, scratch])
        sh(['git', '-C', scratch, 'checkout', '-q', '--', '.'])
        for f, old, new in d['edits']:
            p = os.path.join(scratch, f)
            s = open(p, encoding='utf8', newline='').read()
            if s.count(old) != 1:
                return d['id'], f'edit text occurs {s.count(old)} times: {old[:60]!r}'
            open(p, 'w', encoding='utf8', newline='').write(s.replace(old, new))
        patch = sh(['git', '-C', scratch, 'diff']).stdout
        # lines removed must be original
        orig, ours = 0, []
        for f in {e[0] for e in d['edits']}:
            bl = sh(['git', '-C', REPO, 'blame', '-s', '-l', 'HEAD', '--', f]).stdout.splitlines()
            ln = None
            for l in sh(['git', '-C', scratch, 'diff', '-U0', '--', f]).stdout.splitlines():
                if l.startswith('@@'):
                    ln = int(l.split()[1][1:].split(',')[0])
                elif l.startswith('-') and not l.startswith('---'):
                    c = bl[ln - 1].split()[0].lstrip('^')
                    if BASE.startswith(c): orig += 1
                    else: ours.append(l)
                    ln += 1
        if not orig or ours:
            return d['id'], f'original lines {orig}, ours {ours}'
        out = os.path.join(work, 'seed'); os.makedirs(out)
        open(os.path.join(out, 'patch.diff'), 'w').write(patch)
        open(os.path.join(out, 'demo.py'), 'w').write(d['demo'])
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH); os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']),
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        r0 = sh(['bash', os.path.join(out, 'demo.sh')], cwd=REPO, timeout=300)
        if r0.returncode != 0:
            return d['id'], f'demo fails on the unchanged tree ({r0.returncode}): {r0.stdout[-500:]} {r0.stderr[-1500:]}'
        b = inns(scratch, 'bash /opt/vp/build.sh')
        if b.returncode: return d['id'], 'build: ' + b.stderr[-800:]
        r1 = inns(scratch, f'bash {out}/demo.sh')
        if r1.returncode == 0: return d['id'], 'demo passes with the patch'
        why = (r1.stdout + r1.stderr).strip().splitlines()[-1:]
        t = inns(scratch, f'bash /opt/vp/test.sh {work}/out.json', timeout=900)
        base = json.load(open('/opt/vp/BASELINE.json'))
        res = json.load(open(f'{work}/out.json'))
        bad = failing(base, res)
        if bad: return d['id'], f'tests fail: {bad}'
        dst = os.path.join(SEED, d['id'])
        if os.path.exists(dst): shutil.rmtree(dst)
        shutil.copytree(out, dst)
        return d['id'], f'OK {why}'
    except Exception as e:
        return d['id'], repr(e)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def failing(base, res):
    def passed(o):
        for k in ('passed', 'pass', 'stable', 'tests'):
            if k in o:
                v = o[k]
                return set(v) if isinstance(v, list) else {n for n, s in v.items() if s in ('passed', 'pass', True)}
        raise KeyError(list(o))
    return sorted(passed(base) - passed(res))

if __name__ == '__main__':
    defs = runpy.run_path(sys.argv[1])['SEEDS']
    if sys.argv[2:]: defs = [d for d in defs if d['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(2) as ex:
        for i, m in ex.map(one, defs):
            print(i, '::', m, flush=True)
