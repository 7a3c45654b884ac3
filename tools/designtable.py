"""Prints the table of planted bugs for DESIGN.md (caught as confirmed by tools/seedtest.sh)"""
import json, os
root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
print('| bug | caught by | needs |\n|---|---|---|')
for name in sorted(os.listdir(root)):
    meta = json.load(open(os.path.join(root, name, 'meta.json')))
    print('| %s | %s | %s |' % (name, meta['property'], meta['needs'].replace('|', '/')))
