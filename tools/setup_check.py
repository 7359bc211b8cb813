"""Nothing to build: shows that what the checks need is there."""

import os
import shutil
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from apg import props  # noqa: E402

assert shutil.which("gcc", path="/usr/bin:/bin"), "gcc is missing"
print("ready: %s" % " ".join(sorted(props.ALL)))
