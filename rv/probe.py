"""
Observation of the running library from outside it (no change to /repo):

* a logical clock: function entries and jumps executed inside the library. It bounds every case ("no result within
  N library steps") without any wall-clock verdict;
* the library lines reached, as evidence of what the workload drove.
"""
import sys

from .lib import LIB

M = sys.monitoring
TOOL = 4


class StepBudget(BaseException):
    """The library used more logical steps than the case allows."""


class Probe:
    def __init__(self):
        self.steps = 0
        self.limit = None
        self.lines = set()
        self._codes = {}
        M.use_tool_id(TOOL, "rv")
        M.register_callback(TOOL, M.events.PY_START, self._start)
        M.register_callback(TOOL, M.events.JUMP, self._jump)
        M.register_callback(TOOL, M.events.LINE, self._line)
        M.set_events(TOOL, M.events.PY_START)

    def _start(self, code, offset):
        short = self._codes.get(code)
        if short is None:
            name = code.co_filename
            if not name.startswith(LIB):
                return M.DISABLE
            self._codes[code] = name[len(LIB):]
            M.set_local_events(TOOL, code, M.events.LINE | M.events.JUMP)
        self._bump()

    def _jump(self, code, offset, dest):
        self._bump()

    def _line(self, code, line):
        self.lines.add((code.co_filename[len(LIB):], line))
        return M.DISABLE

    def _bump(self):
        self.steps += 1
        if self.limit is not None and self.steps > self.limit:
            self.limit = None
            raise StepBudget

    def begin(self, budget):
        self.steps = 0
        self.limit = budget

    def end(self):
        self.limit = None
        return self.steps
