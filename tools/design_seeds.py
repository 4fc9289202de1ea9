"""rewrite the list of planted bugs in DESIGN.md from seeded/"""
import json, os, re, collections
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for n in sorted(os.listdir(root + '/seeded')):
    by[json.load(open(f'{root}/seeded/{n}/meta.json'))['property']].append(n)
print(sum(map(len, by.values())))
print('; '.join(f"{p}: {', '.join(v)}" for p, v in sorted(by.items())))
