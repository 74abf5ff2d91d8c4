"""Nothing to build: checks are plain Python over the ast module.  Verifies
that the tool chain can parse the package."""
import ast
import os
import sys

root = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'pads')
n = 0
for d, _, files in os.walk(root):
    for f in files:
        if f.endswith('.py'):
            ast.parse(open(os.path.join(d, f)).read())
            n += 1
print('parsed %d modules with Python %s' % (n, sys.version.split()[0]))
