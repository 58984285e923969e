"""
Logical work monitor: counts the functions entered and the loop iterations made
inside of the library's Python code, whatever the speed of the machine.
Once started in a process it stays on (toggling it is what costs).
"""
import gc
import sys
import types

TOOL = 4
_steps = [0]


def start():
    m = sys.monitoring
    if m.get_tool(TOOL) is not None:
        return
    m.use_tool_id(TOOL, 'siotls-verif')
    E = m.events

    def begin(code, offset):
        if '/siotls/' not in code.co_filename:
            return m.DISABLE
        _steps[0] += 1

    def jump(code, offset, dest):
        if '/siotls/' not in code.co_filename:
            return m.DISABLE
        _steps[0] += 1

    m.register_callback(TOOL, E.PY_START, begin)
    m.register_callback(TOOL, E.PY_RESUME, begin)
    m.register_callback(TOOL, E.JUMP, jump)
    m.set_events(TOOL, E.PY_START | E.PY_RESUME | E.JUMP)


class Work:
    count = 0

    def __enter__(self):
        start()
        self._from = _steps[0]
        return self

    def __exit__(self, *exc):
        self.count = _steps[0] - self._from


def retained(*roots, limit=200000):
    """ Bytes held by what the roots reference. """
    seen, total, todo = set(), 0, list(roots)
    skip = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType)
    while todo and len(seen) < limit:
        o = todo.pop()
        if id(o) in seen or isinstance(o, skip):
            continue
        seen.add(id(o))
        total += sys.getsizeof(o)
        todo.extend(gc.get_referents(o))
    return total
