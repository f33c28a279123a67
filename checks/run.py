#!/usr/bin/env python3-vt
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import check
sys.exit(check.main(sys.argv[1:]))
