#!/usr/bin/env python3
"""Entry point of the checks: check.py <property>. Tier and seed come from VERIF_TIER and VERIF_SEED."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib, props

def run():
    prop = sys.argv[1]
    vlib.build()
    props.CHECKS[prop]()

vlib.main(run)
