"""Builds the C++ extension from the sources in the repository, outside it, and loads it (or an instrumented copy in a process of its own)."""
from . import boot
from concurrent.futures import ThreadPoolExecutor
import base64, glob, hashlib, importlib.machinery, importlib.util, json, os, subprocess, sys, sysconfig

NAME = "streamtasks.media.video_perf"
def _source(): return glob.glob(os.path.join(boot.REPO, "streamtasks/media/video_perf_all.cpp"))[0]
def build(sanitize=False):
  """Compiles the extension; returns the folder to import it from."""
  out = os.path.join(boot.SCRATCH, "ext-asan" if sanitize else "ext")
  target = os.path.join(out, "video_perf" + sysconfig.get_config_var("EXT_SUFFIX"))
  if os.path.exists(target): return target
  os.makedirs(out, exist_ok=True)
  tmp = f"{target}.{os.getpid()}"
  import pybind11
  cmd = ["g++", "-shared", "-fPIC", "-std=c++17", "-fvisibility=hidden", "-DNDEBUG", "-I" + pybind11.get_include(), "-I" + sysconfig.get_paths()["include"], _source(), "-o", tmp]
  cmd += ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"] if sanitize else ["-O2"]
  r = subprocess.run(cmd, capture_output=True, text=True)
  if r.returncode: raise RuntimeError("the extension does not compile: " + r.stderr[-2000:])
  os.rename(tmp, target)
  return target
def load():
  with ThreadPoolExecutor(2) as pool: path, _ = pool.map(build, (False, True))
  loader = importlib.machinery.ExtensionFileLoader("video_perf", path)
  spec = importlib.util.spec_from_file_location("video_perf", path, loader=loader)
  mod = importlib.util.module_from_spec(spec)
  loader.exec_module(mod)
  sys.modules[NAME] = mod
  return mod

DRIVER = """
import sys, json, base64
import importlib.util, importlib.machinery
loader = importlib.machinery.ExtensionFileLoader("video_perf", sys.argv[1])
mod = importlib.util.module_from_spec(importlib.util.spec_from_file_location("video_perf", sys.argv[1], loader=loader))
loader.exec_module(mod)
for line in sys.stdin:
  images, front = json.loads(line)
  try: r = base64.b64encode(mod.merge_images([base64.b64decode(i) for i in images], front)).decode()
  except Exception as e: r = None
  print(json.dumps(r), flush=True)
"""
class Sanitized:
  """merge_images under the address sanitizer."""
  def __init__(self): self.proc = None
  def merge(self, images, front):
    if self.proc is None or self.proc.poll() is not None:
      lib = " ".join(subprocess.run(["gcc", "-print-file-name=" + l], capture_output=True, text=True).stdout.strip() for l in ("libasan.so", "libstdc++.so"))  # the second for exceptions
      self.proc = subprocess.Popen([sys.executable, "-B", "-c", DRIVER, build(True)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
        env={**os.environ, "LD_PRELOAD": lib, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66", "PYTHONMALLOC": "malloc"})
    try:
      self.proc.stdin.write(json.dumps([[base64.b64encode(i).decode() for i in images], front]) + "\n")
      self.proc.stdin.flush()
      line = self.proc.stdout.readline()
    except BrokenPipeError: line = ""
    if line: return ("ok", None if json.loads(line) is None else base64.b64decode(json.loads(line)))
    err = self.proc.stderr.read()
    self.proc.wait()
    self.proc = None
    return ("died", next((l for l in err.splitlines() if "ERROR: AddressSanitizer" in l), err[-300:]))
