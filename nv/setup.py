"""Build the extractor and warm the dependency caches (everything the checks build themselves if it is missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nv import core, dsl
from nv.specimens import ALL
print(core.nvextract())
P = core.Project('setup', ALL['C04'][0]()[:2])
P.compile()
print('specimens', len(P.live))
