#!/usr/bin/env python3
"""Rewrite the planted-bug table in DESIGN.md from seeded/*/meta.json (needs nothing but the texts)."""
import json, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
gained = {
 'word-index-by-letters': 'every scalar around words',
 'path-length-capped': 'long pushed and parsed paths',
 'hardened-flag-lost': 'public halves of private keys',
 'alternate-debug': 'all format flags',
 'seed-debug-prefix': 'Debug form of seeds',
 'ascii-not-normalised': 'ASCII layouts in C30',
 'path-memo-without-marks': 'similar long paths one after the other',
 'symbols-skipped-in-detection': '"something else first"',
 'base-key-parent-ignored': 'depth-0 keys in comparisons',
 'capitals-accepted': 'whole phrases respelled',
 'text-memo-by-first-letter': 'key writing under several versions in a row',
 'salt-buffer-full': 'long passphrases',
 'shared-text-buffer': 'calls from within calls, two keys written together',
 'write-error-ignored': 'writers that fail once, then go on',
 'debug-zero-key-hint': 'rare keys in Debug',
 'accepted-the-second-time': 'failing calls repeated',
 'poisoned-after-os-failure': 'histories after a failed OS source',
 'pool-index-race': 'C07 under the controlled scheduler',
 'urandom-short-read': 'device path with short reads',
}
rows = []
for f in glob.glob(os.path.join(here, 'seeded', '*', 'meta.json')):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append((m['property'], i, m['needs'].replace('|', '/').strip().rstrip('.'), gained.get(i, '')))
rows.sort()
t = '| check | planted bug | needs | missed at first; check gained |\n|---|---|---|---|\n'
t += ''.join('| %s | %s | %s | %s |\n' % r for r in rows)
p = os.path.join(here, 'DESIGN.md'); s = open(p).read()
a, b = '<!-- seeded table -->\n', '<!-- end of seeded table -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + t + s[j:])
