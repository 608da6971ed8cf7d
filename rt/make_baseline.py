"""records the literals of the reference tree (search heuristic only: literals that are new in a changed tree are tried first)"""
import json, os, sys
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
from rt import core
json.dump(core.harvest(core.REPO), open(os.path.join(core.VERIF, "rt", "baseline_literals.json"), "w"), indent=0, sort_keys=True, ensure_ascii=True)
