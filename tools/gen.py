"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py."""
import importlib.util
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def load():
    props = []
    d = os.path.join(HERE, 'props')
    for fn in sorted(os.listdir(d)):
        if fn.endswith('.py'):
            spec = importlib.util.spec_from_file_location(fn[:-3],
                                                          os.path.join(d, fn))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            props.extend(m.PROPS)
    props.sort(key=lambda p: p['id'])
    return props


def main():
    sys.dont_write_bytecode = True
    props = load()
    checks = []
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in props:
            line = dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']),
                why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[
                    dict(name=n, where=w) for n, w in p['mechanism']]))
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(line) + '\n')
            mod = p['id'].lower()
            if not os.path.exists(os.path.join(VERIF, 'checks',
                                               mod + '.py')):
                print('no check for', p['id'])
                continue
            checks.append(dict(
                property=p['id'],
                quick_cmd='./run.sh {}'.format(mod),
                thorough_cmd='VERIF_TIER=thorough ./run.sh {}'.format(mod),
                technique=p['technique'],
                level=p.get('level', 'model_checking'),
                level_note=p['note']))
    man = dict(
        version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[
            dict(property=p['id'], reason=p['na'])
            for p in props if p.get('na')],
        notes='Every check executes the real code in /repo under exhaustive '
              'enumeration of a bounded space; see DESIGN.md.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(props), 'properties', len(checks), 'checks')


if __name__ == '__main__':
    main()
