#!/usr/bin/env python3
"""Prints the table of planted bugs (DESIGN.md section 7) from seeded/*/meta.json."""
import json, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
print('| bug | property | needs | caught by |\n|---|---|---|---|')
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, 'meta.json')))
    print('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), m.get('caught_by', m['property'])))
