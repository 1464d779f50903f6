from hypothesis import strategies as st
from ..core import Sub, Violation
from ..web import http
from streamtasks.asgiserver import ASGIServer, ASGIRouter, static_files_handler, static_file_handler
from streamtasks.asgi import asgi_default_http_error_handler
import asyncio, mimetypes, os, pathlib, shutil, tempfile

TECHNIQUE = "property-based testing (Hypothesis): generated folder trees with links inside a scratch folder, requested by generated paths; reference: the file system's own resolution, and secrets outside which must never appear"
NOTE = "Random search with shrinking; regular files, folders and symbolic links that do not change while they are served."

DIRS = ["", "d", "d/e", "e", "www", "ä b"]
FILES = ["index.html", "index.txt", "a.txt", "noext", "x.weird", "y.tar.gz", "%2e%2e", "..a", "p.png", "A.TXT", "ä.html", "s.css.map"]
OUT = ["secret.txt", "index.html", "sub/index.html", "sub/a.txt"]
TARGETS = ["in:", "in:d", "in:a.txt", "in:d/e/a.txt", "in:noext", "out:", "out:secret.txt", "out:sub", "out:sub/a.txt", "out:index.html", "rel:..", "rel:../www-x", "rel:../outside/secret.txt", "rel:../www-x/secret.txt", "sib:secret.txt", "sib:", "rel:.", "rel:a.txt", "rel:../a.txt", "rel:missing", "self", "abs:/", "abs:/etc/hostname"]
content = st.one_of(st.binary(max_size=12), st.sampled_from([b"", b"x" * 7, b"y" * 8, b"z" * 9, b"w" * 64]))

def cases():
  d = st.sampled_from(DIRS)
  seg = st.sampled_from(DIRS[1:] + FILES + ["..", "..", ".", "", "outside", "www-x", "secret.txt", "sub", "L1", "L2", "L3", "www", "\\..", "..\\", "%2e%2e", "..%2f", "\0", "missing", "~", "x" * 300, "etc", "hostname"])
  free = st.lists(seg, max_size=6).map(lambda l: "/" + "/".join(l))
  plain = st.tuples(d, st.sampled_from(FILES + ["", "L1", "L2", "L3", "L1/a.txt", "L2/sub/a.txt", "L1/secret.txt", "index.html"])).map(lambda t: "/" + "/".join(x for x in t if x))
  deep = st.tuples(st.integers(1, 12), st.sampled_from(["outside/secret.txt", "etc/hostname", "www-x/secret.txt", "outside", "www/a.txt", ""])).map(lambda t: "/" + "../" * t[0] + t[1])
  dirty = st.tuples(plain, st.sampled_from(["/", "/.", "//", "/..", "\0", "?", "#", "/../..", "%00"])).map("".join)
  known = st.tuples(st.just("file"), st.integers(0, 8), st.sampled_from(["", "", "", "/", "/.", "/../", "?"])).map(list)
  link = st.tuples(d, st.sampled_from(["L1", "L2", "L3", "index.html", "index.txt", "a.txt"]), st.sampled_from(TARGETS)).map(list)
  trap = st.tuples(d, st.sampled_from(["index.html", "index.html", "index.txt"]), st.sampled_from(["sib:secret.txt", "sib:index.html", "out:secret.txt", "rel:../www-x/secret.txt", "out:index.html"])).map(list)
  return st.fixed_dictionaries({"files": st.lists(st.tuples(d, st.sampled_from(FILES), content).map(list), min_size=1, max_size=9), "links": st.lists(st.one_of(link, link, link, trap), max_size=5),
    "index": st.sampled_from([["index.html"], ["index.html"], ["index.txt", "index.html"], ["noext"], ["d", "index.txt"], []]), "buffer": st.sampled_from([1, 4, 8, 1000_000, -1]), "root": st.sampled_from(["plain", "plain", "link", "relative", "str", "file"]),
    "errors": st.booleans(), "paths": st.lists(st.one_of(plain, plain, known, known, free, dirty, deep, plain.map(lambda p: "/" + p), plain.map(lambda p: p[1:])), min_size=4, max_size=14)})

SECRET = os.urandom(8).hex().encode()   # not a constant: generators pick those up

def run(case, ctx):
  with tempfile.TemporaryDirectory() as tmp:
    tmp = os.path.realpath(tmp)
    old = os.getcwd()
    try: run_in(case, ctx, tmp)
    finally: os.chdir(old)

def run_in(case, ctx, tmp):
  root, out = tmp + "/www", tmp + "/outside"
  for d in DIRS: os.makedirs(os.path.join(root, d), exist_ok=True)
  os.makedirs(out + "/sub"); os.makedirs(tmp + "/www-x")
  for f in OUT: pathlib.Path(out, f).write_bytes(SECRET + f.encode())
  pathlib.Path(tmp, "www-x/secret.txt").write_bytes(SECRET + b"sibling")
  pathlib.Path(tmp, "www-x/index.html").write_bytes(SECRET + b"sibling")
  pathlib.Path(tmp, "index.html").write_bytes(SECRET + b"above")
  for d, f, c in case["files"]: pathlib.Path(root, d, f).write_bytes(c)
  for d, name, t in case["links"]:
    p = pathlib.Path(root, d, name)
    if p.is_symlink() or p.exists(): continue
    kind, _, rest = t.partition(":")
    p.symlink_to({"in": os.path.join(root, rest), "out": os.path.join(out, rest), "sib": os.path.join(tmp, "www-x", rest), "rel": rest, "abs": rest, "self": name}[kind])
  given = root
  if case["root"] == "link": os.symlink(root, tmp + "/link"); given = tmp + "/link"
  elif case["root"] == "relative": os.chdir(tmp); given = "www"
  elif case["root"] == "file":
    d, f, c = case["files"][0]
    given = os.path.join(root, d, f)
  server = ASGIServer()
  if case["errors"]: server.add_handler(asgi_default_http_error_handler)
  try: handler = static_files_handler(given if case["root"] == "str" else pathlib.Path(given), case["index"], case["buffer"])
  except OSError as e: raise Violation(f"a handler for {given!r} raised {e!r}", key="setup")
  os.chdir("/")
  server.add_handler(handler)
  for path in case["paths"]:
    if not isinstance(path, str):
      d, f, _ = case["files"][path[1] % len(case["files"])]
      path = "/" + os.path.join(d, f) + path[2]
    r = asyncio.run(http(server, "GET", path))
    if r.error is not None: raise Violation(f"GET {path!r} raised {r.error!r}", key="raise")
    what = f"GET {path!r}"
    bad = r.well_formed()
    if SECRET in r.body: raise Violation(f"{what} was answered with a file outside the folder: {r.body!r}", key="secret")
    if bad: raise Violation(f"{what}: {bad}: {r.events}", key="form")
    want = [given] if case["root"] == "file" else resolve(root, path, case["index"])
    if want is None:
      ctx.label("nothing to serve")
      if path.startswith("/.."): ctx.label("path above the folder")
      if r.status != 404: raise Violation(f"{what} should be not found, answered {r.status} {r.body[:80]!r} {r.headers}", key="status")
      continue
    if any(s in path for s in ("\\",)): continue   # how a backslash is read is not specified; nothing secret was shown
    ctx.hit(); ctx.label("served"); 
    if len(want) > 1 and want[0] != want[1]: ctx.label("served through a link or as an index")
    data = pathlib.Path(want[-1]).read_bytes()
    if r.status != 200: raise Violation(f"{what} should serve {want[-1][len(tmp):]!r}, answered {r.status}", key="status")
    if r.body != data: raise Violation(f"{what} should serve {data!r}, answered {r.body!r}", key="body")
    if r.header("content-length") != [str(len(data))]: raise Violation(f"{what}: content-length {r.header('content-length')} for {len(data)} bytes", key="length")
    types = {mimetypes.guess_type(w)[0] for w in want} - {None}
    got = [t.split(";")[0] for t in r.header("content-type")]
    if len(got) != 1 or (types and got[0] not in types): raise Violation(f"{what}: content-type {r.header('content-type')} for {want}", key="type")

def resolve(root, path, index):
  """The names under which the file to serve is known (the last one is the real one), or None."""
  if "\0" in path: return None
  def real(p):
    try: p = os.path.realpath(p)
    except OSError: return None
    return p if p == root or p.startswith(root + "/") else None
  first = os.path.join(root, path.lstrip("/\\"))
  p = real(first)
  if p is None: return None
  if os.path.isdir(p):
    for f in index:
      q = real(os.path.join(p, f))
      if q is not None and os.path.isfile(q): return [os.path.join(p, f), q]
    return None
  return [first, p] if os.path.isfile(p) else None

SUBS = [Sub("files", cases, run, 1500, 40000, "folder trees of up to 9 files and 5 links (some of them index files, some leading out, broken or circular), served whole or as a single file with different buffer sizes, up to 14 requests each; non-trivial: a file is served")]
