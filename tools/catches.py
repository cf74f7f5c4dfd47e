"""
Runs each planted bug's own check on a scratch copy of /repo with the bug in
it, and writes the table in DESIGN.md (between the two marks).
"""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = '<!-- catches -->\n', '<!-- end of catches -->\n'


def main():
    rows = []
    for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        d = os.path.join(HERE, 'seeded', i)
        m = json.load(open(os.path.join(d, 'meta.json')))
        work = tempfile.mkdtemp(prefix='catches.')
        try:
            r = os.path.join(work, 'repo')
            shutil.copytree('/repo', r, symlinks=True)
            subprocess.run(['git', '-C', r, 'apply',
                            os.path.join(d, 'patch.diff')], check=True)
            x = subprocess.run(
                ['python3', '-m', 'sa.run', m['property'], '--repo', r],
                cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                text=True)
            got = {1: 'yes', 0: '**no**'}.get(x.returncode, '**broken**')
        finally:
            shutil.rmtree(work)
        print(i, got, flush=True)
        rows.append('| %s | %s | %s | %s |' % (
            i, m['property'], m['what_it_breaks'].replace('|', '\\|'), got))
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p).read()
    t = A + '| Bug | Property | What it breaks | Caught by its check |\n' \
        '|---|---|---|---|\n' + '\n'.join(rows) + '\n' + B
    s = re.sub(re.escape(A) + '.*?' + re.escape(B), lambda _: t, s,
               flags=re.S)
    open(p, 'w').write(s)


if __name__ == '__main__':
    main()
