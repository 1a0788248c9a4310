#!/usr/bin/env python3
"""python3 check.py <property>: decide one property of /repo by static analysis."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from rucsa import framework          # noqa: E402
from rucsa.checks import REGISTRY    # noqa: E402

if __name__ == '__main__':
    if len(sys.argv) < 2 or sys.argv[1] not in REGISTRY:
        print('usage: check.py <property>; one of ' + ' '.join(sorted(REGISTRY)))
        sys.exit(4)
    sys.exit(framework.main(sys.argv, REGISTRY))
