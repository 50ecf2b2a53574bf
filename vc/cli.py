import sys, os, argparse
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import run
ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('-v', action='store_true'); ap.add_argument('-k'); ap.add_argument('--no-harness', action='store_true'); ap.add_argument('--tier')
a = ap.parse_args()
sys.setrecursionlimit(20000)
if a.prop == 'setup': run.build_extractor(); sys.exit(0)
sys.exit(run.main(a.prop, tier=a.tier, only=a.k, verbose=a.v, noharness=a.no_harness))
