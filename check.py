#!/usr/bin/env python3
"""check.py P10            decides property P10 (VERIF_TIER, VERIF_SEED)
check.py --replay FILE    runs a recorded violating case again"""
import sys, vlib
sys.exit(vlib.main(sys.argv))
