#!/opt/venv/bin/python
"""Entry point: run.py <property> <tier> [-v] [-k substring] | run.py --replay FILE."""
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")


def main(argv):
    if argv[0] == "--replay":
        sys.path.insert(1, os.environ.get("SYMX_ROOT", "/repo/src"))
        from symx.harness import replay_file

        return replay_file(argv[1])
    sys.path.insert(1, os.environ.get("SYMX_ROOT", "/repo/src"))
    if argv[0] == "--witnesses":
        from symx.harness import replay_witnesses

        return replay_witnesses(argv[1])
    from symx.harness import drive

    prop, tier = argv[0], argv[1]
    only = argv[argv.index("-k") + 1] if "-k" in argv else None
    return drive(prop, tier, only, "-v" in argv)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
