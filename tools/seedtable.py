#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
by = {}
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, 'meta.json')))
    by.setdefault(m['property'], []).append((d, m['what_it_breaks']))
for p in sorted(by):
    print(f'* {p}: ' + '; '.join(d for d, _ in by[p]) + '.')
