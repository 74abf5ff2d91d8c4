"""python3 static/check.py <property> [--thorough]"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import report                   # noqa


def lookup(prop):
    import props_a
    import props_b
    import props_c
    import props_d
    import props_e
    import props_f
    import props_g
    import props_h
    import props_i
    import props_j
    import props_k
    import props_l
    import props_m
    import props_n
    import props_o
    import props_p
    import props_q
    import props_r
    import props_s
    import props_t
    import props_u
    for m in (props_a, props_b, props_c, props_d, props_e, props_f,
              props_g, props_h, props_i, props_j, props_k, props_l,
              props_m, props_n, props_o, props_p, props_q,
              props_r, props_s, props_t, props_u):
        fn = getattr(m, 'check_' + prop.lower(), None)
        if fn is not None:
            return fn


if __name__ == '__main__':
    prop = sys.argv[1]
    fn = lookup(prop)
    if fn is None:
        print('no check for ' + prop)
        sys.exit(2)
    sys.exit(report.main(prop, fn))
