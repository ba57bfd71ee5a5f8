"""Property catalogue: the source of properties.jsonl and MANIFEST.json (python3 meta/catalog.py rewrites both)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
C = 'src/libspu/'
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, level=None, technique=None, note=None, na=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, level=level, technique=technique, note=note, na=na, observe=observe))


TECH = 'contract-based deductive verification of the source (symbolic execution of the clang AST against function contracts, obligations discharged by normaliser/z3/cvc5)'
TECHN = TECH + ' plus run-time evaluation of the same contracts on the compiled code'
NOTE = 'All inputs of any size for the listed parameter instances; machine integers exact; assumes the shim declarations of absent dependencies and the callee contracts listed in the evidence.'

exec(open(HERE + '/props.py').read())


def main():
    for p in PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        assert p['statement'].count('. ') <= 2, p['id']
    with open(VERIF + '/properties.jsonl', 'w') as f:
        for p in PROPS:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=[C + x for x in p['files']], mechanism=[dict(name=a, where=C + b) for a, b in p['mechanism']]))
            if p['observe']:
                d['anchors']['observe_at'] = p['observe']
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in PROPS:
        if p['na'] is not None or not os.path.exists(VERIF + '/spuv/props/%s.py' % p['id']):
            na.append(dict(property=p['id'], reason=p['na'] or 'no check built yet'))
            continue
        checks.append(dict(property=p['id'], quick_cmd='./check %s' % p['id'], thorough_cmd='./check %s --tier thorough' % p['id'],
                           technique=p['technique'] or TECHN, level=p['level'] or 'proof', level_note=p['note'] or NOTE))
    m = dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='SPUV_NONE', enable='no hooks are used: the checks read and compile the unmodified sources of /repo'),
             checks=checks, not_applicable=na)
    with open(VERIF + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
