"""Nothing is compiled; checks that the machinery can start here."""
import os
import subprocess
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
py = "/opt/venv/bin/python"
code = "import sys; assert sys.version_info >= (3, 12); import numpy, scipy, sympy, astropy, matplotlib, plotly, numba"
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(root, d), exist_ok=True)
sys.exit(subprocess.call([py, "-s", "-c", code], env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1")))
