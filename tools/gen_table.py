#!/usr/bin/env python3
"""Prints the table of planted bugs of DESIGN.md from seeded/*/meta.json (documentation only; no check uses it)."""
import glob, json, os
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), '..', 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    print('| %s | %s | %s | %s |' % (i, m['property'], ' '.join(m['needs'].split()), m.get('caught', m['property'])))
