#!/usr/bin/env python3
"""check.py <property id>: run the check of one property."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks'))


def main():
    prop = sys.argv[1]
    os.environ['LC_ALL'] = 'C.UTF-8'
    mod = importlib.import_module(prop)
    import vt
    try:
        return mod.main()
    except vt.CompileError as x:
        # The harness only uses the public interface: what does not compile
        # any more cannot have the property.
        chk = vt.Check(prop, 'model_checking')
        chk.coverage = {'explanation': 'code that uses the public interface does not compile'}
        chk.violation('compile', 'code that uses the public interface does not compile: %s' % str(x)[-1500:], {'compiler': str(x)})
        return chk.finish()
    except Exception:
        traceback.print_exc()
        return 3


sys.exit(main())
