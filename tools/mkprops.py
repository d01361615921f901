''' Write properties.jsonl and MANIFEST.json (python3 tools/mkprops.py). '''
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = 'curver/kernel/'
P = []
def prop(id, title, statement, quantifier, why, files, mechanism, technique=None, note=None, na=None, over=('inputs',), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=quantifier, why=why, files=[K + f if '/' not in f else f for f in files],
        mechanism=mechanism, technique=technique, note=note, na=na, over=list(over), observe=list(observe)))

SYM = 'symbolic execution of the real Python code + z3 (linear integer arithmetic), counterexamples replayed'
TRUST = 'Trusts z3, the symbolic integer class (path witnesses are re-run on the unmodified code) and the oracles in props/. '

exec(open(os.path.join(ROOT, 'tools', 'propdefs.py')).read())

def main():
    done = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, 'props')) if f.startswith('c') and f[1:-3].isdigit()}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quantifier']},
                'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    checks, na = [], []
    for p in P:
        if p['na']: na.append({'property': p['id'], 'reason': p['na']})
        elif p['id'] in done:
            checks.append({'property': p['id'], 'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick' % p['id'], 'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % p['id'],
                'technique': p['technique'] or SYM, 'level': 'model_checking', 'level_note': TRUST + (p['note'] or '')})
        else: na.append({'property': p['id'], 'reason': 'check under construction'})
    manifest = {'version': 1, 'setup_cmd': '/opt/venv/bin/python check.py --self-test', 'checks': checks, 'not_applicable': na,
        'notes': 'Pure Python: nothing to build. Every check imports /repo/curver from the working tree (bytecode caches are bypassed) and runs its real functions on symbolic integers; see DESIGN.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f: json.dump(manifest, f, indent=1); f.write('\n')
    print(len(checks), 'checks', len(na), 'not applicable')
main()
