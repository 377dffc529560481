"""Prints the results of every random routine for one recipe (used to compare processes)."""
import json
import sys

from .checks_misc import Programs

g = Programs(int(sys.argv[1]))
print(json.dumps({k: g.seeded(k) for k in g.names()}))
