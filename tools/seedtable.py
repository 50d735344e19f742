#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Planted bugs\n'


def main():
    rows = []
    for n in sorted(os.listdir(HERE + '/seeded')):
        with open('%s/seeded/%s/meta.json' % (HERE, n)) as f:
            m = json.load(f)
        rows.append((m['property'], n, m['needs'], m['what_it_breaks']))
    with open(HERE + '/DESIGN.md') as f:
        text = f.read().split(MARK)[0].rstrip('\n') + '\n\n'
    text += MARK + '\nEach was confirmed in a scratch state of the tree: builds, stable tests pass, demo fails with it and passes without it, and the\n'
    text += 'check of its property reports it at the quick tier.\n\n| check | change | needs | breaks |\n|---|---|---|---|\n'
    for p, n, a, b in sorted(rows):
        text += '| %s | %s | %s | %s |\n' % (p, n, ' '.join(a.split()), ' '.join(b.split()))
    with open(HERE + '/DESIGN.md', 'w') as f:
        f.write(text)


if __name__ == '__main__':
    main()
