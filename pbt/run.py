"""python -m pbt.run ID [--tier quick|thorough] [--sub NAME] [--replay FILE] [--scale X]"""
from . import boot
import argparse
import importlib
import os
import shutil
import sys
import traceback

def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("id", nargs="?")
  ap.add_argument("--setup", action="store_true")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
  ap.add_argument("--sub", action="append")
  ap.add_argument("--replay")
  ap.add_argument("--scale", type=float, default=1.0)
  a = ap.parse_args()
  if a.setup:
    from . import core
    import hypothesis, streamtasks
    print('harness imports', hypothesis.__version__, streamtasks.__file__)
    return
  seed = int(os.environ.get("VERIF_SEED", "1") or 1)
  try:
    from .core import run_check
    mod = importlib.import_module(f"pbt.checks.{a.id}")
    rc = run_check(a.id, mod.SUBS, a.tier, seed, a.sub, a.replay, a.scale)
  except BaseException:
    traceback.print_exc()
    rc = 2
  finally:
    if boot.OWNS_SCRATCH: shutil.rmtree(boot.SCRATCH, ignore_errors=True)
  sys.stdout.flush(); sys.stderr.flush()
  os._exit(rc)

if __name__ == "__main__": main()
