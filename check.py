"""check.py ID [--quick|--thorough] [--replay FILE]: the check of one property (see DESIGN.md)"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
sys.dont_write_bytecode = True

import checks  # noqa: E402
import engine  # noqa: E402

if __name__ == "__main__":
    sys.exit(engine.main(sys.argv[1:], checks.CHECKS))
