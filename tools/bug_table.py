#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only; no check uses it).
import json, glob, os, re, collections
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = collections.OrderedDict()
n = 0
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d)); n += 1
    name = os.path.basename(os.path.dirname(d))
    t.setdefault(m['property'], []).append('`%s` (%s)' % (name.split('-', 1)[1], m['what_it_breaks']))
p = root + '/DESIGN.md'
s = open(p).read()
tab = '| property | changes |\n|---|---|\n' + ''.join('| %s | %s |\n' % (k, '; '.join(t[k])) for k in sorted(t))
a = s.index('| property | changes |'); b = s.index('\nTried and not kept')
s = s[:a] + tab + s[b:]
s = re.sub(r'`seeded/` holds \d+ changes', '`seeded/` holds %d changes' % n, s)
open(p, 'w').write(s)
