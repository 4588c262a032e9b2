"""
Counts the work the library does: function entries, jumps and branches of its bytecode.
"""
import gc
import sys
import types

from . import lib

MON = sys.monitoring
TOOL = 4
N = [0, 1 << 62]


class TooMuchWork(BaseException):
    pass


def _tick(*a):
    n = N[0] = N[0] + 1
    if n > N[1]:
        N[1] = 1 << 62
        raise TooMuchWork()


def install():
    if MON.get_tool(TOOL) is not None:
        return
    seen = set()

    def walk(co):
        if co not in seen:
            seen.add(co)
            for k in co.co_consts:
                if isinstance(k, types.CodeType):
                    walk(k)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(lib.PKG_DIR):
            walk(o.__code__)
    MON.use_tool_id(TOOL, 'work')
    ev = MON.events.PY_START | MON.events.JUMP | MON.events.BRANCH | MON.events.PY_RESUME
    for e in (MON.events.PY_START, MON.events.JUMP, MON.events.BRANCH, MON.events.PY_RESUME):
        MON.register_callback(TOOL, e, _tick)
    for co in seen:
        MON.set_local_events(TOOL, co, ev)


def measure(fn, limit):
    """-> (result, work)"""
    N[0], N[1] = 0, limit
    gc.disable()
    try:
        return fn(), N[0]
    finally:
        N[1] = 1 << 62
        gc.enable()
