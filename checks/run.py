#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]: decide one property against /repo's working tree."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "..", "lib")]
import check, importlib

WHERE = {"progression": ["P01", "P02", "P03", "P04", "P05", "P23", "P24"],
         "nodes": ["P06", "P07", "P08", "P09", "P10"],
         "symbolic": ["P13", "P14"],
         "translation": ["P18", "P19"],
         "hddl": ["P12"],
         "model": ["P11", "P17", "P22"],
         "sat": ["P15", "P16"],
         "structs": ["P20", "P21"],
         "cudd": ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"]}

prop = sys.argv[1]
mod = next(m for m, ps in WHERE.items() if prop in ps)
check.main(getattr(importlib.import_module(mod), prop.lower()), prop)
