#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property (see DESIGN.md)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from props_storage import REG as storage
from props_wire import REG as wire
from props_small import REG as small
from props_tracker import REG as tracker
from props_bencode import REG as bencode
from props_swarm import REG as swarm

REG = {}
for r in (storage, wire, small, tracker, bencode, swarm):
    REG.update(r)

if __name__ == "__main__":
    sys.exit(lib.main(REG))
