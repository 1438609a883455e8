"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json (used by hand only, no check reads seeded/)."""
import json, glob, os
for f in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + '/../seeded/*/meta.json')):
    d = json.load(open(f)); print('| %s | %s | %s |' % (f.split('/')[-2], d['property'], d['what_it_breaks'].replace('|', '/')))
