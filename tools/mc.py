#!/usr/bin/env python3
"""mc.py MODULE CFG: explore one specification and count its emitted behaviours (development aid)"""
import sys, os, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import core
ctx = core.Ctx("X", "quick", 1)
try:
    b = core.model_check(ctx, sys.argv[1], sys.argv[2])
    print(collections.Counter(str(x[-1][0]) for x in b).most_common(40))
except core.Err as e:
    print(str(e)[-1500:])
ctx.close()
