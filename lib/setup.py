"""Builds the operator overrides and the drivers once, so that the checks only
have to rebuild what changed."""
import os
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import vp

vp.java_classes()
vp.cli_tool()
vp.cli_tool("debug")
with ThreadPoolExecutor(4) as ex:
    for f in [ex.submit(vp.rust_driver, x) for x in vp.CONFIGS]:
        f.result()
print("built")
