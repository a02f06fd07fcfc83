#!/usr/bin/env python3-vt
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
from engine import core

if __name__ == "__main__":
    sys.exit(core.main(sys.argv))
