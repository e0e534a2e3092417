#!/usr/bin/env python3
"""check.py <PROPERTY>: decide one property.  See DESIGN.md."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import runner
sys.exit(runner.main(sys.argv[1:]))
