"""Development tool: record the hashes of the C/Cython sources the extension
modules in /repo were built from (run right after a build)."""
import os
import sys
import json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import env
with open(os.path.join(env.VERIF, 'symx', 'extbase.json'), 'w') as f:
    json.dump({**env.ext_hashes(), **env.so_hashes()}, f, indent=0, sort_keys=True)
