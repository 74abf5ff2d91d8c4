"""Fill the tables of planted bugs and repairs into DESIGN.md."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    p = os.path.join(HERE, 'DESIGN.md')
    with open(p) as f:
        text = f.read()
    rows = ['| bug | caught by | file | shows with |', '|---|---|---|---|']
    seeded = os.path.join(HERE, 'seeded')
    for b in sorted(os.listdir(seeded)):
        with open(os.path.join(seeded, b, 'meta.json')) as f:
            meta = json.load(f)
        with open(os.path.join(seeded, b, 'patch.diff')) as f:
            files = re.findall(r'^\+\+\+ b/pads/(\S+)', f.read(), re.M)
        rows.append('| %s | %s | %s | %s |' % (
            b, meta['property'], ', '.join(files),
            meta['needs'].replace('|', '/')))
    fixed = []
    with open(os.path.join(HERE, 'known-findings.txt')) as f:
        for line in f:
            m = re.match(r'fixed: property=(\S+) (\S+) (.*)', line)
            if m:
                fixed.append('* %s (`%s`): %s' % m.groups())
    for name, lines in (('planted', rows), ('fixed', fixed)):
        a, b = '<!-- %s -->\n' % name, '<!-- /%s -->' % name
        block = a + '\n'.join(lines) + '\n' + b
        if a in text:
            text = text[:text.index(a)] + block + \
                text[text.index(b) + len(b):]
        else:
            text = text.replace(name.upper() + '\n', block + '\n', 1)
    with open(p, 'w') as f:
        f.write(text)


if __name__ == '__main__':
    main()
