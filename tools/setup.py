#!/usr/bin/env python3
"""builds the harness (and with it the dependencies), checks that TLC runs"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build(cli=True)
t = vlib.run_tlc("Scen", "SPECIFICATION Spec\nCONSTANT MaxDepth = 94\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n",
                 env={"FAMILIES": "syntactic", "BIG": "0", "SAMPLE": "0"}, xss="64m")
print("setup: harness built, specification runs (%d cases)" % len(t.records))
