"""Environment of every check process: import paths, scratch directories, quiet logging.

Import this before anything from streamtasks.
"""
import importlib.abc
import importlib.machinery
import logging
import os
import sys
import tempfile
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_ALLOWED = ("hypothesis", "_hypothesis", "sortedcontainers", "attr", "attrs")

class _ToolFinder(importlib.abc.MetaPathFinder):
  """Resolves hypothesis and its dependencies (only) from the preinstalled tool environment."""
  def find_spec(self, name, path=None, target=None):
    if path is None and name.split(".")[0].startswith(_ALLOWED):
      return importlib.machinery.PathFinder.find_spec(name, [VT_SITE])
    return None

sys.dont_write_bytecode = True
sys.meta_path.append(_ToolFinder())
if REPO in sys.path: sys.path.remove(REPO)
sys.path.insert(0, REPO)

SCRATCH = os.environ.get("VERIF_SCRATCH")
if not SCRATCH:
  SCRATCH = os.environ["VERIF_SCRATCH"] = tempfile.mkdtemp(prefix="vp-")
  OWNS_SCRATCH = True
else: OWNS_SCRATCH = False
os.environ["TMPDIR"] = SCRATCH
os.environ["DATA_DIR"] = os.path.join(SCRATCH, "data")
os.environ["HOME"] = SCRATCH
os.environ.setdefault("NODE_NAME", "verif-node")
for _k in ("DEBUG_SER", "DEBUG_MEDIA", "DEBUG_MIXER"): os.environ.setdefault(_k, "0")
os.makedirs(os.environ["DATA_DIR"], exist_ok=True)
tempfile.tempdir = SCRATCH

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
sys.unraisablehook = lambda *_: None
