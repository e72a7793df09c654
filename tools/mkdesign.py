"""fills the tables of DESIGN.md from properties.jsonl, evidence/, known_findings.json and seeded/ (run after a full sweep)"""
import json, os, re, glob
V = '/verif'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
kf = json.load(open(V + '/known_findings.json'))
out = []
LV = {'proved for all inputs and sizes': 'P', 'proved for the stated concrete sizes only (bounded)': 'B', 'executed only (bounded stand-in, not proved)': 'T'}
for p in props:
    f = V + '/evidence/%s.json' % p['id']
    out.append('### %s %s\n' % (p['id'], p['title']))
    if not os.path.exists(f):
        continue
    e = json.load(open(f))
    c = e['coverage']
    out.append('Anchored in %s. Obligations: %d of %d discharged; %d executions; about %d s.\n' % (
        ', '.join(x.replace('heat_load_calc/', '') for x in p['anchors']['files']), c['discharged'], c['obligations'], c['evaluations'], max(1, round(e['wall_s']))))
    for x in c['functions_under_contract']:
        out.append('* %s `%s` (%s): %s.%s' % (LV[x['level']], x['contract'], ', '.join(x['functions']), ' '.join((x['says'] or '').split()).rstrip('.'),
                                              (' Assumes: ' + '; '.join(x['assumed']) + '.') if x['assumed'] else ''))
    out.append('')
prop = '\n'.join(out)
fi = ['Recorded (known_findings.json; the check prints KNOWN-FINDING and still reports any other violation):', '']
fi += ['* **%s** (%s), `%s`: %s.' % (x['id'], x['property'], x['where'], x['what'].rstrip('.')) for x in kf['findings']]
fi += ['', 'Repaired in /repo (one commit each):', ''] + ['* %s' % re.sub(r'^fixed: property=', '', x) for x in kf['fixed']]
pl = ['| planted bug (seeded/) | property | needs | caught by |', '|---|---|---|---|']
st = json.load(open(V + '/tools/planted/status.json')) if os.path.exists(V + '/tools/planted/status.json') else {}
for d in sorted(glob.glob(V + '/seeded/*')):
    b = os.path.basename(d)
    m = json.load(open(d + '/meta.json'))
    pl.append('| %s | %s | %s | %s |' % (b, m['property'], str(m['needs']).replace('|', '/').replace('\n', ' '), st.get(b, '')))
t = open(V + '/DESIGN.md').read()


def put(t, key, body):
    a, b = '<!-- %s -->' % key, '<!-- end %s -->' % key
    if a in t:
        return t[:t.index(a)] + a + '\n' + body + '\n' + b + t[t.index(b) + len(b):]
    return t.replace(key, a + '\n' + body + '\n' + b)


t = put(t, 'PROPERTY_TABLE', prop)
t = put(t, 'FINDINGS_TABLE', '\n'.join(fi))
t = put(t, 'PLANTED_TABLE', '\n'.join(pl))
open(V + '/DESIGN.md', 'w').write(t)
print(len(t))
