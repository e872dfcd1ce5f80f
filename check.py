#!/usr/bin/env python3
# check.py PROPERTY: decides one property (VERIF_TIER=quick|thorough, VERIF_SEED).   check.py setup: builds everything.
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import props
if __name__ == '__main__': props.main(sys.argv[1:])
