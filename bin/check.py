#!/usr/bin/env python3
"""check.py <property>: runs the check of one property (tier from VERIF_TIER or the second argument)."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import tt, props


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    ck = tt.Check(prop, tier)
    try:
        level, assumptions, coverage = getattr(props, prop)(ck)
        return ck.finish(level, assumptions, coverage)
    except tt.ToolError as e:
        print('ERROR: %s' % e)
        return ck.finish('model_checking', ['the run stopped early: ' + str(e)[:300]], {}) if ck.violations else 2
    except Exception:
        traceback.print_exc()
        return ck.finish('model_checking', ['the run stopped early by an exception'], {}) if ck.violations else 2
    finally:
        ck.close()


if __name__ == '__main__':
    sys.exit(main())
