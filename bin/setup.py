"""Check that what the checks need is there (nothing has to be built)."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
code = "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, numpy, scipy, networkx, h5py; print('z3', z3.get_version_string())"
sys.exit(subprocess.call(['/opt/venv/bin/python', '-c', code]))
