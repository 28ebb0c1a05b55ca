"""python -m mc.main <PROPERTY> <tier> [--replay FILE]"""

import importlib
import json
import os
import sys
import traceback


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    from mc import core

    ctx = core.Ctx(prop, tier)
    try:
        from mc import bootstrap

        bootstrap.setup()
        mod = importlib.import_module("checks." + prop.lower())
        if "--replay" in sys.argv:
            with open(sys.argv[sys.argv.index("--replay") + 1], encoding="utf-8") as f:
                doc = json.load(f)
            ctx.replaying = True
            mod.replay(ctx, doc["case"])
        else:
            mod.explore(ctx)
    except BaseException as exc:  # the code could not even be driven: that is an answer as well
        if isinstance(exc, KeyboardInterrupt):
            raise
        traceback.print_exc()
        ctx.violation(
            "undrivable:" + type(exc).__name__, {"phase": "driver"}, "the code could not be driven: %r" % (exc,)
        )
    code = ctx.finish()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
