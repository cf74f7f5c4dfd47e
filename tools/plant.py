"""
Makes seeded/<id>/ from a description of a planted bug, after confirming in a
scratch copy that the tests pass with it and that its demonstration tells.

    python3 tools/plant.py BUGS.py [ID...] [--check]

BUGS.py defines BUGS, a list of dicts: id, property, needs, breaks,
edits (list of (file, old, new)) and demo (Python source; it fails by raising).
--check also runs the property's check on the scratch copy.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'd3f1180'
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/sh
# exit 0: the property holds; otherwise it is broken
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
REPO=$(pwd) PYTHONPATH=$(pwd) PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 \\
    LC_ALL=C.UTF-8 TMPDIR=$work WORK=$work \\
    /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    check = '--check' in sys.argv
    ns = {}
    exec(open(args[0]).read(), ns)
    for b in ns['BUGS']:
        if args[1:] and b['id'] not in args[1:]:
            continue
        print(b['id'], plant(b, check), flush=True)


def plant(b, check):
    work = tempfile.mkdtemp(prefix='plant.')
    try:
        r = os.path.join(work, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        for f, old, new in b['edits']:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'EDIT: %d matches in %s of %r' % (s.count(old), f, old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', '-C', r, 'diff']).stdout
        orig = originals(r, diff)
        d = os.path.join(work, 'bug')
        os.mkdir(d)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        p = os.path.join(d, 'demo.sh')
        open(p, 'w').write(DEMO)
        os.chmod(p, 0o755)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'],
                   'what_it_breaks': b['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                   PYTHONHASHSEED='0', LC_ALL='C.UTF-8')
        x = sh(['sh', p], cwd='/repo')
        if x.returncode:
            return 'DEMO fails on the clean tree:\n' + x.stdout[-1500:]
        x = sh(['sh', p], cwd=r)
        if not x.returncode:
            return 'DEMO passes with the change'
        why = x.stdout.strip().split('\n')[-1][:150]
        base = json.load(open('/opt/vp/BASELINE.json'))
        t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                '--timeout=300', 'test', '-x', '-rf'], cwd=r,
               env=dict(env, PYTHONPATH=r, TMPDIR=work))
        m = re.search(r'(\d+) passed', t.stdout)
        failed = re.search(r'(\d+) failed', t.stdout)
        if not m or failed and int(failed.group(1)) or int(m.group(1)) < 77:
            return 'TESTS: ' + t.stdout[-1200:]
        out = '%s | %s' % (orig, why)
        if check:
            for pid in [b['property']] + b.get('also', []):
                c = sh([sys.executable, '-m', 'sa.run', pid, '--repo', r],
                       cwd=HERE)
                out += '\n   %s: %s' % (pid, {
                    0: 'MISSED', 1: 'caught', 2: 'BROKEN'}.get(
                        c.returncode, '?'))
                if c.returncode == 1:
                    lines = [l for l in c.stdout.split('\n')
                             if 'key=' in l]
                    out += '  ' + (lines[0].strip()[:200] if lines else '')
        dest = os.path.join(HERE, 'seeded', b['id'])
        if os.path.isdir(dest):
            shutil.rmtree(dest)
        # only changes of the original repository's lines count
        if not orig.startswith('0/'):
            shutil.copytree(d, dest)
        return out
    finally:
        shutil.rmtree(work)


def originals(r, diff):
    """How many of the lines removed are the original repository's."""
    n = m = 0
    f = None
    line = 0
    blame = {}
    base = set(sh(['git', '-C', r, 'rev-list', BASE]).stdout.split())
    for l in diff.split('\n'):
        if l.startswith('--- a/'):
            f = l[6:]
            blame = {}
            cur = None
            for b in sh(['git', '-C', r, 'blame', '-p', 'HEAD', '--',
                         f]).stdout.split('\n'):
                q = re.match(r'([0-9a-f]{40}) \d+ (\d+)', b)
                if q:
                    blame[int(q.group(2))] = q.group(1) in base
        elif l.startswith('@@'):
            line = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            n += 1
            m += bool(blame.get(line))
            line += 1
        elif l.startswith(' '):
            line += 1
    return '%d/%d lines original' % (m, n)


main()
