"""Writes MANIFEST.json from the properties and the rules that exist."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

REASONS = {
    'C40': 'Whether rounding to the printed number of decimal places brings '
           'every time back to within a thousandth of a frame is a matter of '
           'floating-point arithmetic over all times and frame rates: no '
           'static argument in reach bounds it without a solver. The '
           'structural half (same notation, same units both ways) is C10.',
    'C41': 'The identity over 256 values per channel through division, '
           'decimal text and rounding is floating-point arithmetic; deciding '
           'it means evaluating the code. That channels keep enough decimal '
           'places and are never swapped or clamped is C04.',
    'C43': 'Equality of the reloaded document depends on the XML writer and '
           'parser of Beautiful Soup and lxml for every text, which is code '
           'outside the repository and outside any model short of running '
           'it. The part which is in the repository (whole document, UTF-8, '
           'matching container) is C13.',
}

TECHNIQUE = {
    'default': 'abstract interpretation of the source (path-sensitive, '
               'opaque inputs) with a typestate and effect analysis of the '
               'document',
    'C04': 'abstract interpretation with provenance (dataflow) terms from '
           'arguments through the document to what is read',
    'C09': 'abstract interpretation with provenance terms; effect analysis '
           'of attribute writes',
    'C10': 'abstract interpretation of formatting and parsing; regular '
           'language inclusion over the extracted patterns',
    'C11': 'abstract interpretation: dominance of the frame-rate test over '
           'every conversion',
    'C12': 'effect-order analysis of file operations on every path, '
           'with injected failures',
    'C13': 'abstract interpretation of format tables and file effects',
    'C14': 'constant propagation through the registry and searches',
    'C15': 'constant propagation of field declarations against Synfig\'s '
           'layer reference',
    'C16': 'effect analysis: writes to class, module, field and default '
           'argument state on every path',
    'C17': 'abstract interpretation: place each descriptor reads and writes, '
           'against Synfig\'s names',
    'C19': 'effect analysis of document writes and order of file effects',
    'C20': 'abstract interpretation of every descriptor and constructor',
    'C21': 'scope and definite-assignment dataflow over every function, '
           'and name resolution along abstract paths',
    'C22': 'module-level constant propagation and import resolution',
    'C23': 'effect-order analysis of file operations, with taint from '
           'input lines to output',
    'C25': 'abstract interpretation of comparisons over shared and distinct '
           'provenance terms',
    'C26': 'abstract interpretation with provenance (dataflow) terms: every '
           'way of reading a part against the text it comes from',
    'C27': 'value numbering: polynomial normal forms of the terms computed '
           'from an unknown frame rate',
    'C29': 'abstract interpretation: the element each layer object is '
           'tied to, against the tree',
    'C30': 'must-raise analysis (abstract interpretation) of assignments '
           'and readings',
    'C28': 'abstract interpretation; polynomial normal forms of the times of '
           'words over unknown starts and durations',
}

NOTE = ('Static: decided from the source of /repo on every run without '
        'executing it, on every abstract path of every listed operation '
        'up to the path limit reported in the evidence. Trusts the models '
        'of Beautiful Soup, lxml and the standard library in sa/dom.py and '
        'sa/ext.py. Reports only definite violations: where a path meets '
        'something the analysis cannot decide it is listed as undecided in '
        'the evidence and not reported. ')


def rule_text(path):
    tree = ast.parse(open(path).read())
    for s in tree.body:
        if isinstance(s, ast.Assign) and s.targets[0].id == 'RULE':
            return ast.literal_eval(s.value)
    return ''


def main():
    checks, na = [], []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)['id']
        rule = os.path.join(HERE, 'sa', 'rules', p.lower() + '.py')
        if os.path.exists(rule):
            checks.append({
                'property': p,
                'quick_cmd': 'python3 -m sa.run %s --tier quick' % p,
                'thorough_cmd': 'python3 -m sa.run %s --tier thorough' % p,
                'evidence_file': 'evidence/%s.json' % p,
                'technique': TECHNIQUE.get(p, TECHNIQUE['default']),
                'level': 'other',
                'level_note': NOTE + 'Rule: ' + rule_text(rule)})
        else:
            na.append({'property': p, 'reason': REASONS.get(
                p, 'The check for this property is not built yet.')})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
         'not_applicable': na,
         'notes': 'No hooks were added to /repo; its commits are repairs '
                  'only (fix: ...). See DESIGN.md and KNOWN_FINDINGS.txt.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
