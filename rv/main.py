"""Entry point: python -m rv.main ID [--replay FILE]"""
import sys


def main():
    args = sys.argv[1:]
    pid = args[0]
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    from . import registry
    from .core import run_property
    spec = registry.PROPERTIES[pid]
    sys.exit(run_property(pid, spec["workloads"], spec["rule"], spec["assumptions"], replay))


if __name__ == "__main__":
    main()
