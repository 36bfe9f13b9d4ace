#!/usr/bin/env python3
"""setup_cmd: builds the MIR dumper and the dump of /repo once (later checks rebuild what is missing themselves)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import fw
print(fw.dump())
