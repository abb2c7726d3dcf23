#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
S = 'orocos_bfl/src/'
PROPS = []
NA = []
TECH = 'static analysis: gated value analysis of the type-checked program (clang AST), closed forms for loops, equality of normal-form terms per obligation'
def P(id, title, statement, over, text, why, files, mech, observe=None, level='proof', note='', tech=TECH, na=None):
    assert len(title) <= 80 and len(statement) <= 2000, (id, len(title), len(statement))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    PROPS.append((d, level, note, tech, na))
PROOF = 'every obligation is an equality of symbolic values that holds for all arguments and all object states at entry; floating point is treated as exact arithmetic, documented (asserted) preconditions are assumed'
exec((V / 'spec' / 'props.py').read_text())
def main():
    (V / 'properties.jsonl').write_text(''.join(json.dumps(d) + '\n' for d, *_ in PROPS))
    checks = []; na = []
    for d, level, note, tech, no in PROPS:
        if no: na.append(dict(property=d['id'], reason=no)); continue
        checks.append(dict(property=d['id'], quick_cmd='python3 check.py ' + d['id'], thorough_cmd='python3 check.py %s --tier thorough' % d['id'],
                           technique=tech, level=level, level_note=note or PROOF))
    m = dict(version=1, setup_cmd='bash tool/build.sh build/bflx', checks=checks, not_applicable=na,
             notes='All checks read the sources under /repo/orocos_bfl/src on every run (export through clang, then analysis in Python); nothing of the library is executed.')
    (V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
main()
