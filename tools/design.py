"""Writes DESIGN.md from design_head.md, the checks and design_tail.md."""
import ast
import importlib.util
import json
import os
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def check_info(path):
    tree = ast.parse(open(path).read())
    info, parts = {}, []
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and \
                getattr(n.targets[0], 'id', '') == 'chk':
            for k in n.value.keywords:
                info[k.arg] = ast.literal_eval(k.value)
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and \
                        getattr(d.func, 'attr', '') == 'part':
                    b = ''
                    for k in d.keywords:
                        if k.arg == 'bound':
                            b = ast.literal_eval(k.value)
                    parts.append((n.lineno, ast.literal_eval(d.args[0]), b))
    return info, [p[1:] for p in sorted(parts)]


def wrap(s, first='', rest=None):
    return textwrap.fill(' '.join(s.split()), 79, initial_indent=first,
                         subsequent_indent='  ' if rest is None else rest,
                         break_long_words=False, break_on_hyphens=False)


def main():
    spec = importlib.util.spec_from_file_location(
        'gen', os.path.join(HERE, 'gen.py'))
    gen = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(gen)
    out = [open(os.path.join(HERE, 'design_head.md')).read().rstrip(), '']
    costs = json.load(open(os.path.join(HERE, 'costs.json')))
    for p in gen.load():
        path = os.path.join(VERIF, 'checks', p['id'].lower() + '.py')
        out += ['### {}: {}'.format(p['id'], p['title']), '']
        if p.get('na'):
            out += [wrap('Not applicable: ' + p['na'], rest=''), '']
            continue
        info, parts = check_info(path)
        out.append(wrap('**Specified.** ' + p['statement'], '* '))
        out.append(wrap('**Explored, against which oracle.** '
                        + info['rule'] + '.', '* '))
        out.append('* **Bounds.**')
        for name, b in parts:
            out.append(wrap('*{}*: {}'.format(name, b or 'see the check'),
                            '  * ', '    '))
        if info.get('assumptions'):
            out.append(wrap('**Assumed.** ' + '; '.join(info['assumptions'])
                            + '.', '* '))
        out.append(wrap('**Why tests do not settle it.** ' + p['why'], '* '))
        out.append(wrap('**Strength and cost.** {} {}; about {} s.'.format(
            info.get('level', 'model_checking').replace('_', ' '),
            'of the implementation itself, exhaustive within the bounds',
            costs.get(p['id'], '?')), '* '))
        out.append('')
    tail = open(os.path.join(HERE, 'design_tail.md')).read()
    known = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    tail = tail.replace('@FIXED@', '\n'.join(
        wrap(f[len('fixed: property='):], '* ') for f in known['fixed']))
    tail = tail.replace('@FINDINGS@', '\n'.join(
        wrap('{} `{}`: {}'.format(f['property'], f['key'], f['what']), '* ')
        for f in known['findings']))
    rows = ['| change | property | needs |', '|---|---|---|']
    sd = os.path.join(VERIF, 'seeded')
    for i in sorted(os.listdir(sd) if os.path.isdir(sd) else ()):
        m = json.load(open(os.path.join(sd, i, 'meta.json')))
        rows.append('| {} | caught by {} | {} |'.format(
            i, m['property'], ' '.join(m['needs'].split())))
    tail = tail.replace('@SEEDED@', '\n'.join(rows))
    out.append(tail)
    with open(os.path.join(VERIF, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


if __name__ == '__main__':
    main()
