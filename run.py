#!/usr/bin/env python3
"""run.py check <ID> [quick|thorough] | replay FILE | setup | list"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import driver, spec


def main(a):
    if a[:1] == ['check']:
        tier = a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick')
        prop = [p for p in spec.PROPS if p['id'] == a[1] and p.get('units')]
        if not prop:
            sys.stderr.write('no check for %s\n' % a[1])
            return 2
        return driver.Run(prop[0], tier, int(os.environ.get('VERIF_SEED', '1'))).main()
    if a[:1] == ['replay']:
        return driver.replay(a[1], spec.PROPS)
    if a[:1] == ['list']:
        for p in spec.PROPS:
            print(p['id'], p['title'])
        return 0
    if a[:1] == ['setup']:
        import shutil
        for t in ('clang++', 'g++', 'valgrind'):
            if not shutil.which(t):
                sys.stderr.write('missing tool: %s\n' % t)
                return 2
        return 0
    sys.stderr.write(__doc__ + '\n')
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
