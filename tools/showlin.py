#!/usr/bin/env python3
"""showlin.py FILE TRACE EVENT: prints the events of a concurrent history up to the rejected one"""
import json, sys
sys.path.insert(0, "/verif")
from lib import show_lin
d = json.load(open(sys.argv[1]))
print("\n".join(show_lin(d, int(sys.argv[2]), int(sys.argv[3]))))
