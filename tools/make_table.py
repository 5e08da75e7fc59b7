"""Rewrites the last section of DESIGN.md: the planted bugs and the check that catches each (all by the check of their own property)."""
import collections, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.OrderedDict()
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d), encoding='utf-8'))
    by.setdefault(m['property'], []).append((d, m))
MARK = '## Planted bugs and the checks that catch them'
text = open(V + '/DESIGN.md', encoding='utf-8').read()
head = text.split(MARK)[0].rstrip()
out = [head, '', MARK, '', '''Every planted bug is caught by the quick check of the property it was planted for (`tools/try_seeded.sh` applies them one after the
other).  Those that were missed when they were planted led to extensions: odd characters at every distance and as forms (c03-literal-strip,
c06-lower-template, c12-blank-form), questions between additions (c07-remembered-words, c07-stripped-lookup), shared and repeated objects
(c08-last-registration, c13-externals-identity, c17-dictionary-identity), objects changed in place between generations (c13, session histories),
lookalike names (c17-upper-variable), incomplete words (c07-interned-slots, c22-filled-copy), two preemptions at calls (c14-nested-context),
crowded memories (c14-bounded-parse-memo), long lists and large counts (c03, c04, c05, c06, c17 by size).''', '', '| check | planted bug | manifests with |', '|---|---|---|']
for p in sorted(by):
    for d, m in by[p]:
        needs = m['needs']
        out.append('| %s | %s | %s |' % (p, d, needs.replace('|', '\\|').replace('\n', ' ')))
open(V + '/DESIGN.md', 'w', encoding='utf-8').write('\n'.join(out) + '\n')
