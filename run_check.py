#!/usr/bin/env python3
"""run_check.py ID -- runs the check of one property (tier and seed from the environment)."""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vk import core

def main():
    prop = sys.argv[1]
    mod = importlib.import_module("checks." + prop)
    core.main(prop, mod.check)

main()
