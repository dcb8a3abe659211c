"""Prints the table of planted bugs for DESIGN.md."""
import json, os
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
print('| change | caught by | needs |\n|---|---|---|')
for i in sorted(os.listdir(S)):
  m = json.load(open(os.path.join(S, i, 'meta.json')))
  print(f"| {i} | {m['property']} | {m['needs']} |")
