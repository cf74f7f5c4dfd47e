"""
Runs the check of one property:

    python3 -m sa.run C01 [--tier quick|thorough] [--repo DIR] [--all]

Exit status 0: the property holds on everything analysed. 1: a violation, with
a line "VIOLATION property=<id> replay=<path>". 2: the analysis is broken.
"""
import argparse
import importlib
import json
import os
import pickle
import sys
import tempfile
import threading
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(pid):
    r = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        with open(p, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if not line.startswith('known:'):
                    continue
                fields = line[len('known:'):].strip().split(' ', 2)
                if fields[0] == 'property=' + pid and \
                        fields[1].startswith('key='):
                    r[fields[1][4:]] = fields[2] if len(fields) > 2 else ''
    return r


def main():
    if os.environ.get('PYTHONHASHSEED') != '0':
        # the same order of everything on every run
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'sa.run'] +
                 sys.argv[1:])
    warnings.simplefilter('ignore', DeprecationWarning)
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=('quick', 'thorough'))
    ap.add_argument('--repo', default=None)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--only', default=None)
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    if args.repo:
        os.environ['SANGFROID_REPO'] = args.repo
    out = []
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=lambda: out.append(run(args)))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 2)


def analyse(rule, W, args):
    """Returns the merged findings, or a reason why there are none."""
    from .report import Report
    from .world import AnchorGone

    def one(shard):
        R = Report(args.property, W, args.tier)
        R.shard = shard
        R.only = args.only
        try:
            rule.check(W, R)
        except AnchorGone as e:
            return {'broken': '%s no longer exists' % e}
        except Exception:
            return {'broken': traceback.format_exc()}
        return R.export()
    n = args.jobs if getattr(rule, 'PARALLEL', False) else 1
    if n <= 1:
        parts = [one((0, 1))]
    else:
        files = []
        for i in range(n):
            f = tempfile.TemporaryFile()
            pid = os.fork()
            if pid == 0:
                status = 1
                try:
                    pickle.dump(one((i, n)), f)
                    f.flush()
                    status = 0
                finally:
                    os._exit(status)
            files.append((pid, f))
        parts = []
        for pid, f in files:
            _, st = os.waitpid(pid, 0)
            if st:
                parts.append({'broken': 'a worker ended with status %d' % st})
            else:
                f.seek(0)
                parts.append(pickle.load(f))
            f.close()
    found = [p for p in parts if p.get('violations')]
    for p in parts:
        if 'broken' in p:
            if found:
                # what the others found stands
                parts = [q for q in parts if 'broken' not in q]
                break
            return p
    return Report.merge(parts)


def run(args):
    from . import world
    start = time.time()
    pid = args.property
    rule = importlib.import_module('sa.rules.' + pid.lower())
    try:
        W = world.World(os.environ.get('SANGFROID_REPO', '/repo'))
    except Exception:
        traceback.print_exc()
        print('ANALYSIS BROKEN: the packages could not be loaded')
        return 2
    R = analyse(rule, W, args)
    if 'broken' in R:
        print('ANALYSIS BROKEN: ' + R['broken'])
        return 2
    known = known_findings(pid)
    new = [v for k, v in R['violations'].items() if k not in known]
    old = [v for k, v in R['violations'].items() if k in known]
    I = W.I
    units = R['units']
    paths = sum(u['paths'] for u in units.values())
    cut = sum(u['cut'] for u in units.values())
    nobl = len(R['obligations'])
    print('%s: %s' % (pid, rule.RULE))
    print('  analysed: %d operations, %d paths (%d abandoned), %d functions '
          'of /repo, %d obligations' % (
              len(units), paths, cut, len(R['visited']), nobl))
    partial = sorted(n for n, u in units.items() if not u['complete'])
    for n in partial[:8]:
        print('  path limit reached: %s' % n)
    if len(partial) > 8:
        print('  path limit reached: %d more' % (len(partial) - 8))
    for n, why in sorted(R['inconclusive'].items())[:20]:
        print('  inconclusive: %s: %s' % (n, why))
    if len(R['inconclusive']) > 20:
        print('  inconclusive: %d more' % (len(R['inconclusive']) - 20))
    if R['unknown']:
        print('  undecided: %d obligations' % len(R['unknown']))
    if args.v:
        for k in sorted(R['unknown']):
            print('    undecided', k)
        for n, u in sorted(units.items(), key=lambda x: -x[1]['s'])[:30]:
            print('   ', n, u)
        for k, c in sorted(R['notes'].items()):
            print('    imprecise', k, c)
        for k, c in R['obligations'].items():
            print('    obligation', k, c)
    replay = os.path.join(HERE, 'evidence', pid + '.replay.txt')
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    minimum = getattr(rule, 'MINIMUM', 1)
    broken = None
    if nobl < minimum and not new and not args.only:
        broken = 'only %d obligations; expected at least %d' % (
            nobl, minimum)
    if len(R['inconclusive']) * 2 > len(units) + len(R['inconclusive']) \
            and not new:
        broken = 'most operations could not be analysed'
    ev = {
        'property': pid,
        'tier': args.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': rule.RULE + ' ' + getattr(rule, 'SCOPE', ''),
            'operations_analysed': len(units),
            'paths': paths,
            'paths_abandoned': cut,
            'path_limit_reached': partial[:100],
            'functions_of_repo_interpreted': len(R['visited']),
            'functions': sorted('%s:%s' % f for f in R['visited'])[:400],
            'obligations': nobl,
            'obligation_instances': sum(R['obligations'].values()),
            'sites': sorted('%s:%s' % (s[0], s[2]) if isinstance(s, tuple)
                            else s for s in R['sites'])[:200],
            'inconclusive': R['inconclusive'],
            'undecided': sorted(R['unknown'])[:100],
            'imprecise': sorted(R['notes'])[:60],
            'samples': R['samples'] or sorted(R['obligations'])[:12],
            'files_read': sorted(I.relpath(p) for p in I.read_files),
        },
        'assumptions': getattr(rule, 'ASSUMPTIONS', []) + BASE_ASSUMPTIONS,
        'wall_s': round(time.time() - start, 2),
        'violations': len(new),
    }
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w',
              encoding='utf-8') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for v in old:
        print('KNOWN-FINDING: property=%s %s' % (
            pid, known[v['key']] or v['message']))
    for k in known:
        if k not in R['violations']:
            print('  (known finding no longer present: %s)' % k)
    if new:
        with open(replay, 'w', encoding='utf-8') as f:
            for v in new:
                f.write('rule: %s\nfinding: %s\nkey: %s\nwhere: %s\n'
                        'operation: %s\n' % (
                            rule.RULE, v['message'], v['key'], v['where'],
                            v['unit']))
                for e in v['extra']:
                    f.write('  %s\n' % (e,))
                f.write('path conditions:\n')
                for d in v['path']:
                    f.write('  %s\n' % d)
                f.write('\n')
        for v in new[:12]:
            print('  %s: %s [%s] key=%s' % (
                v['where'], v['message'], v['unit'], v['key']))
        if len(new) > 12:
            print('  and %d more' % (len(new) - 12))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if broken:
        print('ANALYSIS BROKEN: ' + broken)
        return 2
    if os.path.exists(replay):
        os.unlink(replay)
    print('  ok (%.1f s)' % (time.time() - start))
    return 0


BASE_ASSUMPTIONS = [
    'Beautiful Soup 4.12 behaves as modelled in sa/dom.py',
    'the built-ins and standard library behave as modelled in sa/ext.py',
    'collections of unknown size are represented by none, one or two members',
]

if __name__ == '__main__':
    main()
