"""Writes MANIFEST.json from the rules that exist and the list of not-applicable properties."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'sa'))
import main

TECH_MIR = ('static analysis: abstract interpretation of the compiler\'s MIR (resolved calls, inlined through the '
            'call graph, joins and loops kept symbolic) to a gated value graph; each obligation is an equality over '
            'that graph, closed by normalisation or refuted by a distinguishing valuation of its free atoms')
TECH = {
    'C20': 'static analysis: type-level witnesses - programs the compiler must reject, each with a twin that must compile',
    'C21': 'static analysis: type-checking every feature combination against the source, and a path-resolution lint for '
           'the standard library without the `std` feature',
}
NOTE = {
    'C20': 'The witnesses are a finite list of shapes; a hole of another shape is not seen.',
    'C21': 'All feature sets of both crates are checked; only the sandbox target.',
}
NOTE_MIR = ('The graph covers every path of the analysed functions at once. Term equality is decided by normalisation and, '
            'where that leaves a difference, by random-interpretation identity testing over bounded vectors (up to 4 elements), '
            'so a pass is strong evidence, not a proof; an alarm always carries a distinguishing valuation. A construct '
            'the analysis does not know leaves its obligation undecided and silent.')
NA = {
    'C24': 'Whether references alias under the (unsettled) aliasing model depends on runtime provenance of every pointer; '
           'the MIR has no provenance to decide it statically, and running Miri would be another family.',
}


def build():
    r = main.rules()
    props = [json.loads(l) for l in open(os.path.join(HERE, '..', 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in NA:
            na.append(dict(property=i, reason=NA[i]))
        elif i in r:
            checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                               technique=TECH.get(i, TECH_MIR), level='other', level_note=NOTE.get(i, NOTE_MIR),
                               evidence_file='evidence/%s.json' % i))
        else:
            na.append(dict(property=i, reason='No check yet.'))
    m = dict(version=1, setup_cmd='python3 -m compileall -q sa || true', checks=checks, not_applicable=na,
             notes='See DESIGN.md. Known findings: known-findings.txt. No hooks are needed in /repo.')
    json.dump(m, open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
    print('%d checks, %d not applicable' % (len(checks), len(na)))


build()
