#!/usr/bin/env python3
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.harness import main
if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        from vlib.harness import setup
        sys.exit(setup())
    sys.exit(main(sys.argv[1], sys.argv[2:]))
