import importlib
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "checks"))
import core  # noqa


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    m = importlib.import_module(prop.lower())
    sys.exit(core.run(prop, m.check, m.LEVEL, m.RULE, m.ASSUME, tier == "thorough"))


main()
