#!/usr/bin/env python3
"""setup_cmd: compile the Java arithmetic and check that the specification parses. Checks build the library themselves."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
vlib.classes()
print("setup ok")
