#!/opt/venv/bin/python
"""check.py <property id> [--replay FILE]: see DESIGN.md."""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
HYPOTHESIS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-B", os.path.abspath(__file__)] + sys.argv[1:])

sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
# at the end: APG's own dependencies come from its environment
sys.path.append(HYPOTHESIS)


def main():
    from apg import driver, props

    if len(sys.argv) < 2 or sys.argv[1] not in props.ALL:
        print("usage: check.py <%s> [--replay FILE]" % "|".join(sorted(props.ALL)), file=sys.stderr)
        return 2
    prop = props.ALL[sys.argv[1]]
    if len(sys.argv) == 4 and sys.argv[2] == "--replay":
        return driver.replay(prop, sys.argv[3])
    tier = os.environ.get("VERIF_TIER", "quick")
    base_seed = int(os.environ.get("VERIF_SEED", "1"))
    return driver.run_property(prop, tier, base_seed)


if __name__ == "__main__":
    sys.exit(main())
