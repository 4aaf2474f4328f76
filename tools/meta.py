"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import denospec   # noqa: E402

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []
GROUPS, REG = {}, {}


def prop(id, title, statement, over, qtext, why, files, mech, observe=()):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                      anchors=dict(files=list(files), mechanism=[dict(name=a, where=b) for a, b in mech],
                                   observe_at=list(observe), hook_needed=None)))


def claim(technique, note, level='other'):
    p = PROPS[-1]['id']
    CHECKS.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p,
                       thorough_cmd='python3 check.py %s thorough' % p,
                       technique=technique, level=level, level_note=note))


def decide(module, function):
    REG[PROPS[-1]['id']] = [module, function]


def table(counters='strip', **files):
    """functions whose outcome tables decide the property; keys are source
    files without suffix (isl_domain: source/isl/domain.c)"""
    fs = []
    for k, v in files.items():
        path = 'source/' + ('isl/' + k[4:] if k.startswith('isl_') else k) + '.c'
        known = {e['fn'] for e in denospec.rawload(denospec.gname(path))['entries']}
        for n in v.split():
            if n == '*':
                fs += [path + ':' + x for x in sorted(known)]
                continue
            if n not in known:
                raise SystemExit('%s: no table of %s' % (path, n))
            fs.append(path + ':' + n)
    GROUPS[PROPS[-1]['id']] = dict(functions=sorted(set(fs)), counters=counters)
    decide('denoc', 'check')


def na(reason):
    NA.append(dict(property=PROPS[-1]['id'], reason=reason))


exec(open(os.path.join(HERE, 'tools', 'properties.py')).read())

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=CHECKS, not_applicable=NA,
                   notes='All checks are static: they compile /repo\'s sources to LLVM IR in a scratch directory '
                         'and analyse it; nothing of /repo is executed.'),
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    json.dump(GROUPS, open(os.path.join(HERE, 'checks', 'groups.json'), 'w'), indent=1)
    json.dump(REG, open(os.path.join(HERE, 'checks', 'registry.json'), 'w'), indent=1)
    assert set(REG) == {c['property'] for c in CHECKS}
    allf = {e['file'] + ':' + e['fn'] for g in denospec.groups() for e in denospec.rawload(g)['entries']}
    used = {f for g in GROUPS.values() for f in g['functions']}
    print('functions in no group:', ' '.join(sorted(allf - used)))
    try:
        import jsonschema
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for p in PROPS:
            jsonschema.validate(p, s)
        jsonschema.validate(json.load(open(os.path.join(HERE, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
        print('schemas ok')
    except ImportError:
        pass
    ids = {p['id'] for p in PROPS}
    have = {c['property'] for c in CHECKS} | {n['property'] for n in NA}
    assert ids == have, ids ^ have
    print(len(PROPS), 'properties', len(CHECKS), 'claimed', len(NA), 'not applicable')
