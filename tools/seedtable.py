"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set('''m02-close-classes m04-hot-add m06-shared-zero t01-entropy-linear m08-tab
f01-pressure-frozen f04-rounded-coeffs n01-film-memo b02-main-rename b04-source-frozen b06-pennies
s02-same-compound b12-cached-table m01-tuple-bool m02-snap m04-cold m06-assay-view m06-stream-clone
m07-negative-zero m08-comment-tail m08-duplicate-names t01-cp-limit t01-inverse-term t01-curie
t02-subdir b02-remove-by-path b03-detached b03-loan-interest b06-other-structure b09-self-transfer
b12-plain-letters f02-herning-normal f03-urbain-cache f04-missing-cells f05-hot f06-extra-allowed
f06-own-model-nu m09-stale-text s02-convert-round b01-cached-now'''.split())
extra = os.path.join(root, 'tools', 'missed.txt')
STILL = set()
if os.path.exists(extra):
    for l in open(extra):
        l = l.split('#')[0].split()
        if l:
            (STILL if l[0] == 'still' else MISSED).add(l[-1])
rows = []
for i in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', i, 'meta.json')))
    n = ' '.join(str(m['needs']).split())
    n = n if len(n) < 120 else n[:117] + '...'
    by = 'not caught' if i in STILL else m['property'] + (' *' if i in MISSED else '')
    rows.append('| %s | %s | %s |' % (i, n.replace('|', '/'), by))
t = '| planted bug | needs | caught by |\n|---|---|---|\n' + '\n'.join(rows) + '\n'
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- seeded:begin -->\n', '<!-- seeded:end -->'
s = s[:s.index(a) + len(a)] + t + s[s.index(b):]
open(p, 'w').write(s)
print(len(rows), 'planted bugs,', sum(i in MISSED for i in os.listdir(os.path.join(root, 'seeded'))), 'first missed')
