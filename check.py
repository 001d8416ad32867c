#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import core, checks
def main():
    prop = sys.argv[1]
    if prop == '--setup':
        from vf import tlc
        return tlc.parse_all()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    c = core.Check(prop, tier)
    checks.CHECKS[prop](c)
    return c.finish()
if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        import traceback; traceback.print_exc()
        sys.exit(2)
