#!/usr/bin/env python3
"""check.py <property id>: decide one property on the current sources of /repo."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from an.core import main
sys.exit(main(sys.argv[1]))
