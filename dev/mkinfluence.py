#!/usr/bin/env python3
"""Writes tsa/data/influence.json from the current tree (then reviewed)."""
import json, sys, threading
sys.path.insert(0, __file__.rsplit("/", 2)[0])
sys.setrecursionlimit(60000)
threading.stack_size(1 << 29)


def main():
    from tsa import core
    from tsa.rules import p06
    table, dead, cond = p06.collect(core.load())
    json.dump(cond, open(p06.MODES, "w"), indent=0, sort_keys=True)
    json.dump(table, open(p06.TABLE, "w"), indent=0, sort_keys=True)
    print(sum(len(k) for t in table.values() for k in t.values()))


t = threading.Thread(target=main)
t.start()
t.join()
