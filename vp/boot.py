"""Import the code under test from /repo's working tree, and nothing else.

Third-party packages come from their usual byte-code cache; starlette itself is
compiled from source every time (a cached .pyc of an earlier tree must never be
what a check decides on).
"""
from __future__ import annotations

import importlib
import os
import pkgutil
import sys
import warnings

warnings.simplefilter("ignore")

REPO = os.environ.get("VP_REPO", "/repo")

import vp.tracking  # noqa: E402,F401  (before starlette.formparsers binds the class)

# third-party first
for _m in (
    "anyio",
    "anyio.to_thread",
    "anyio.from_thread",
    "anyio._backends._asyncio",
    "anyio._backends._trio",
    "trio",
    "httpx",
    "itsdangerous",
    "jinja2",
    "yaml",
    "python_multipart",
    "python_multipart.multipart",
):
    importlib.import_module(_m)

_preloaded = [m for m in sys.modules if m == "starlette" or m.startswith("starlette.")]
for _m in _preloaded:
    del sys.modules[_m]
sys.pycache_prefix = "/nonexistent/vp-no-bytecode"
sys.path.insert(0, REPO)
import starlette  # noqa: E402

if os.path.realpath(starlette.__file__) != os.path.realpath(os.path.join(REPO, "starlette", "__init__.py")):
    sys.stderr.write(f"starlette was imported from {starlette.__file__}, not from {REPO}\n")
    sys.exit(3)
for _info in pkgutil.walk_packages(starlette.__path__, "starlette."):
    importlib.import_module(_info.name)
