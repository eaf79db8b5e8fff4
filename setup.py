"""setup_cmd: builds the instrumented variants once (every check rebuilds what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import build
for v in ("asan", "plain"):
    print(build.tools(v))
    print(build.cards(v))
print(build.cards("vg"))
