#!/opt/venv/bin/python
"""Usage: check.py PROPERTY.  See MANIFEST.json; VERIF_SEED and VERIF_TIER are read from the environment."""
import os
import sys
import traceback
import warnings

warnings.filterwarnings("ignore")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import core  # noqa: E402
import registry  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = core.Ctx(prop, tier, seed)
    try:
        spec = registry.CHECKS[prop]
        spec["run"](ctx)
        return core.finish(ctx, spec["level"], spec["rule"], spec["assumptions"])
    except core.Broken as ex:
        print(f"the check itself failed: {ex}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


if __name__ == "__main__":
    sys.exit(main())
