"""Writes the per-property part of DESIGN.md (between the two markers) from the harness registry, tools/design_notes.json
and seeded/*/meta.json.  Run with /opt/venv/bin/python after changing a harness or planting a bug."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, '/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from engine import registry  # noqa: E402

A, B = '<!-- generated by tools/design.py: begin -->', '<!-- end -->'


def one(s):
    return ' '.join(s.split())


def main():
    registry.load_all()
    notes = json.load(open(os.path.join(HERE, 'tools', 'design_notes.json')))
    props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
    seeds = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        seeds.setdefault(m['property'], []).append((f.split('/')[-2], one(m['needs'])))
    out = []
    for p in props:
        i, n = p['id'], notes.get(p['id'], {})
        out.append('### %s — %s\n' % (i, p['title']))
        out.append('*Oracle.* %s\n' % n.get('oracle', ''))
        if n.get('outside'):
            out.append('*Outside the bounds.* %s\n' % n['outside'])
        if n.get('cost'):
            out.append('*Quick cost.* %s.\n' % n['cost'])
        out.append('| harness | decides | configurations quick / thorough | bounds |\n|---|---|---|---|')
        for h in registry.of_property(i):
            out.append('| %s | %s | %d / %d | %s |' % (h.name, one(h.doc).replace('|', '\\|'), len(registry.configs(h, 'quick')),
                                                   len(registry.configs(h, 'thorough')), one(str(h.opts.get('bounds'))).replace('|', '\\|')))
        out.append('')
        if seeds.get(i):
            out.append('Planted bugs (caught by this property\'s check unless the table of section 7 says otherwise): ' +
                       '; '.join('`%s` (%s)' % s for s in seeds[i]) + '.\n')
    f = os.path.join(HERE, 'DESIGN.md')
    t = open(f).read()
    a, b = t.index(A), t.index(B)
    open(f, 'w').write(t[:a] + A + '\n\n' + '\n'.join(out) + '\n' + t[b:])


main()
