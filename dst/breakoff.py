"""Operations broken off half-way: an allocation failure at any executed line of chosen finmlkit modules."""
import sys
import types

from . import core

TOOL = 4
ARM = {"left": 0, "fired": None}


def _line(code, ln):
    if ARM["left"] > 0:
        ARM["left"] -= 1
        if ARM["left"] == 0:
            ARM["fired"] = f"{code.co_name}"
            raise MemoryError("injected")


def instrument(modules, always=False):
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "breakoff")
    if always:
        mon.register_callback(TOOL, mon.events.LINE, _line)
    todo = [v for m in modules for v in vars(m).values()]
    seen = set()
    while todo:
        v = todo.pop()
        v = getattr(v, "py_func", v)
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            todo.append(v.fget)
        if isinstance(v, type) and v.__module__.startswith("finmlkit"):
            todo.extend(vars(v).values())
        elif isinstance(v, types.FunctionType) and v.__code__ not in seen and v.__code__.co_filename.startswith(core.REPO):
            seen.add(v.__code__)
            mon.set_local_events(TOOL, v.__code__, mon.events.LINE)


class armed:
    """with armed(n): the n-th line fails (n = 0: none)."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        ARM["left"], ARM["fired"] = self.n or 0, None
        if self.n:
            sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, _line)
        return self

    def __exit__(self, *a):
        ARM["left"] = 0
        if self.n:
            sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, None)

    @property
    def fired(self):
        return ARM["fired"]
