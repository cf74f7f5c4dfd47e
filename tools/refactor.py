"""
Applies hand-written refactorings (tools/refactor/*.py, which keep the
behaviour) to a scratch copy of /repo, runs its tests, and runs the checks on
it: every one must stay quiet.

    python3 tools/refactor.py NAME... [CHECK...]

Each file defines EDITS, a list of (file, old, new), and perhaps FILES.
"""
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    names = [a for a in sys.argv[1:] if not re.match(r'C\d\d$', a)]
    checks = [a for a in sys.argv[1:] if re.match(r'C\d\d$', a)] or sorted(
        os.path.basename(f)[:-3].upper() for f in glob.glob(
            os.path.join(HERE, 'sa', 'rules', 'c[0-9][0-9].py')))
    for n in names or sorted(
            os.path.basename(f)[:-3] for f in glob.glob(
                os.path.join(HERE, 'tools', 'refactor', '*.py'))):
        one(n, checks)


def one(name, checks):
    ns = {}
    exec(open(os.path.join(HERE, 'tools', 'refactor', name + '.py')).read(),
         ns)
    work = tempfile.mkdtemp(prefix='refactor.')
    try:
        d = os.path.join(work, 'repo')
        shutil.copytree('/repo', d, symlinks=True)
        for f, old, new in ns['EDITS']:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(name, 'EDIT', f, s.count(old), repr(old[:80]))
                return
            open(p, 'w').write(s.replace(old, new))
        for f, t in ns.get('FILES', {}).items():
            open(os.path.join(d, f), 'w').write(t)
        r = subprocess.run(
            ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', 'test'],
            cwd=d, env=dict(os.environ, PYTHONPATH=d, TMPDIR=work,
                            PYTHONDONTWRITEBYTECODE='1'),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(name, 'tests:', '\n'.join(r.stdout.splitlines()[
            -1 if r.returncode == 0 else -15:]), flush=True)
        if r.returncode:
            return
        for c in checks:
            r = subprocess.run(
                ['python3', '-m', 'sa.run', c, '--repo', d], cwd=HERE,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            m = re.search(r'(\d+) obligations', r.stdout)
            u = re.search(r'undecided: (\d+)', r.stdout)
            print('%s %s rc=%d %s obligations%s' % (
                name, c, r.returncode, m and m.group(1),
                ', %s undecided' % u.group(1) if u else ''), flush=True)
            if r.returncode:
                print('\n'.join(x[:400] for x in r.stdout.splitlines()[2:6]))
    finally:
        shutil.rmtree(work)


main()
