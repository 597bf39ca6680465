#!/usr/bin/env python3
"""check.py <property> [--replay FILE]   (VERIF_SEED, VERIF_TIER from the environment)"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vrt
sys.exit(vrt.cli(sys.argv))
