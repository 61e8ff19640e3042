"""Development helper: fill the tables of DESIGN.md (between the BEGIN/END
marks) from seeded/, known_findings.json and the last evidence files."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seeds():
    out = ['| planted change | breaks | what goes wrong | caught by |', '|---|---|---|---|']
    for d in sorted(glob.glob(R + '/seeded/*')):
        m = json.load(open(d + '/meta.json'))
        out.append('| %s | %s | %s | check %s |' % (os.path.basename(d), m['property'],
                   m['what_it_breaks'].replace('|', '/').replace('\n', ' '), m['property']))
    return out


def fixed():
    k = json.load(open(R + '/known_findings.json'))
    return ['- ' + x.replace('fixed: ', '') for x in k['fixed']]


def known():
    k = json.load(open(R + '/known_findings.json'))
    g = {}
    for e in k['known']:
        g.setdefault((e['property'], e['why']), []).append(e['key'])
    return ['- %s (%d listed obligations, e.g. `%s`): %s' % (p, len(v), v[0], w) for (p, w), v in g.items()]


def cost():
    out = ['| check | obligations | functions analysed | undecided | quick run (8 cores) |', '|---|---|---|---|---|']
    for f in sorted(glob.glob(R + '/evidence/*.json')):
        e = json.load(open(f))
        c = e['coverage']
        if e['tier'] != 'quick':
            continue
        out.append('| %s | %s | %s | %s | %s s |' % (e['property'], c['obligations'], c['functions_analysed_count'],
                   c['undecided'], round(e['wall_s'], 1)))
    return out


text = open(R + '/DESIGN.md').read()
for name, f in (('seeds', seeds), ('fixed', fixed), ('known', known), ('cost', cost)):
    text = re.sub('(<!-- BEGIN %s -->\n).*?(<!-- END %s -->)' % (name, name),
                  lambda m: m.group(1) + '\n'.join(f()) + '\n' + m.group(2), text, flags=re.S)
open(R + '/DESIGN.md', 'w').write(text)
