"""Plant bugs: python3 tools/plant.py FILE [ID...]

FILE is a Python file with BUGS = [dict(id, property, edits=[(file, old, new), ...], demo, needs, breaks)].
Each bug is applied to /repo's working tree, tested, demonstrated, checked and undone;
seeded/<id>/ is written when the demonstration and the stable tests agree that it counts.
"""
import json
import os
import re
import runpy
import subprocess
import sys
import time

REPO, VERIF = '/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '036db3a'
DEMO = '#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def stable():
    out = '/tmp/plant_out.json'
    sh('bash /opt/vp/test.sh ' + out)
    text = json.dumps(json.load(open(out)).get('passed'))
    os.unlink(out)
    return [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in text]


def foreign(diff):
    """Changed lines that the original repository does not have."""
    bad, name, old = [], None, 0
    for line in diff.split('\n'):
        if line.startswith('--- a/'):
            name = line[6:]
            base = sh('git -C %s show %s:%s' % (REPO, BASE, name)).stdout.split('\n')
        elif line.startswith('-') and not line.startswith('---'):
            if line[1:] not in base:
                bad.append(line)
    return bad


def plant(bug):
    folder = os.path.join(VERIF, 'seeded', bug['id'])
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, 'demo.sh'), 'w') as out:
        out.write(DEMO)
    os.chmod(os.path.join(folder, 'demo.sh'), 0o755)
    with open(os.path.join(folder, 'demo.py'), 'w') as out:
        out.write(bug['demo'].strip('\n') + '\n')
    with open(os.path.join(folder, 'meta.json'), 'w') as out:
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, out, indent=1)
    demo = os.path.join(folder, 'demo.sh')
    clean = sh(demo, cwd=REPO, timeout=300)
    trouble = []
    if clean.returncode:
        trouble.append('demo fails on the clean tree: ' + (clean.stdout + clean.stderr)[-300:])
    try:
        for name, old, new in bug['edits']:
            path = os.path.join(REPO, name)
            text = open(path).read()
            if text.count(old) != 1:
                return print(bug['id'], 'BAD EDIT: occurs %d times' % text.count(old), repr(old[:60]))
            open(path, 'w').write(text.replace(old, new))
        diff = sh('git -C %s diff' % REPO).stdout
        with open(os.path.join(folder, 'patch.diff'), 'w') as out:
            out.write(diff)
        if not any(l.startswith('-') and not l.startswith('---') for l in diff.split('\n')):
            trouble.append('changes no line')
        if foreign(diff):
            trouble.append('changes lines of a fix: %s' % foreign(diff))
        patched = sh(demo, cwd=REPO, timeout=300)
        if patched.returncode == 0:
            trouble.append('demo passes with the patch')
        failing = stable()
        if failing:
            trouble.append('stable tests fail: %s' % failing)
        start = time.time()
        check = sh('bin/check ' + bug['property'], cwd=VERIF, timeout=1800)
        caught = check.returncode == 1 and 'VIOLATION property=' + bug['property'] in check.stdout
        clauses = sorted(set(re.findall(r'clause\(s\) (.*?) violated', check.stdout)))
    finally:
        sh('git -C %s checkout -- .' % REPO)
    print(bug['id'], bug['property'], 'CAUGHT' if caught else 'MISSED rc=%s' % check.returncode, '%.0fs' % (time.time() - start),
          '; '.join(clauses)[:160], '| demo: ' + (patched.stdout + patched.stderr).strip().split('\n')[-1][:100], '!! %s' % trouble if trouble else '')
    sys.stdout.flush()


if __name__ == '__main__':
    assert not sh('git -C %s status --porcelain' % REPO).stdout
    wanted = sys.argv[2:]
    for item in runpy.run_path(sys.argv[1])['BUGS']:
        if not wanted or item['id'] in wanted:
            plant(item)
