from __future__ import annotations

import importlib
import os
import pkgutil
import sys


def find(prop: str) -> str:
    import vp.props

    for info in pkgutil.iter_modules(vp.props.__path__):
        if info.name.upper().startswith(prop.upper() + "_"):
            return "vp.props." + info.name
    raise SystemExit(f"no check for {prop}")


def main() -> int:
    import vp.boot  # noqa
    from vp import engine

    prop = sys.argv[1]
    mod = importlib.import_module(find(prop))
    replay = None
    if "--replay" in sys.argv:
        replay = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
    return engine.check(mod, replay)


if __name__ == "__main__":
    sys.exit(main())
