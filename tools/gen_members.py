"""Write static/members.json: attributes and methods of each class, in order
of appearance.  Lets the checks follow a private member that is renamed."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'static'))
import lang                     # noqa


def main():
    out = lang.members(lang.Source(renamed=False))
    with open(os.path.join(HERE, 'static', 'members.json'), 'w') as f:
        json.dump(out, f, indent=1, sort_keys=True)
        f.write('\n')


if __name__ == '__main__':
    main()
