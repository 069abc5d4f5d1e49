#!/usr/bin/env python3
"""Static checks of kalepy's properties.  usage: check.py P05 | --selftest | --list"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == '--list':
        for f in sorted(os.listdir(os.path.join(HERE, 'sa', 'checks'))):
            if f.startswith('p') and f.endswith('.py'):
                print(f[:-3].upper())
        return 0
    from sa.engine import Check, Missing
    if a[0] == '--selftest':
        from sa import selftest
        return selftest.main()
    pid = a[0].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if 'thorough' in a:
        tier = 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    ck = Check(pid, tier, seed)
    try:
        importlib.import_module('sa.checks.' + pid.lower()).run(ck)
    except Missing as e:
        print(f'the package cannot be analysed: {e}')
        return 2
    except SyntaxError as e:
        print(f'the package does not parse: {e}')
        return 2
    return ck.finish()


if __name__ == '__main__':
    sys.exit(main())
