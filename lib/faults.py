"""
Faults at chosen points of the library: an exception raised when a given line of
its code is about to run, as an exhausted memory, a signal handler or an
interrupt would. Two runs: one which lists the points a history goes through,
one in which the chosen one fails.
"""
import dis
import os
import sys

import siotls

TOOL = 3
HERE = os.path.dirname(os.path.abspath(siotls.__file__)) + os.sep
_now = [None]
_idle = {}


class Fault(Exception):
    """ What nobody can expect. """


class Cancelled(BaseException):
    """ As the interrupt of the keyboard, or the timeouts of gevent, are. """


KINDS = {'memory': MemoryError, 'fault': Fault, 'recursion': RecursionError, 'interrupt': KeyboardInterrupt, 'cancelled': Cancelled}


def idle(code):
    """
    The lines which run nothing, such as `try:`, where nothing can be raised: no
    handler covers those, not even the one the statement is inside of.
    """
    found = _idle.get(id(code))       # (hashing a code object is slow)
    if found is None:
        found = _idle[id(code)] = code, {i.starts_line for i in dis.get_instructions(code) if i.starts_line and i.opname == 'NOP'}
    return found[1]


def start():
    m = sys.monitoring
    if m.get_tool(TOOL) is not None:
        return
    m.use_tool_id(TOOL, 'siotls-faults')

    def line(code, number):
        if not code.co_filename.startswith(HERE) or number in idle(code):
            return m.DISABLE
        plan = _now[0]
        if plan is None:
            return m.DISABLE
        if plan.armed:
            return plan.reach(code, number)

    m.register_callback(TOOL, m.events.LINE, line)
    m.set_events(TOOL, m.events.LINE)


class Plan:
    """
    Armed only inside of the calls it guards. Without a target it lists the
    points; with one, (file, line, nth time), it raises there, once.
    """
    def __init__(self, target=None, kind=None):
        self.target, self.kind = target, kind
        self.armed = False
        self.hits, self.order = {}, []
        self.phase, self.during = None, {}     # the points of each of the calls
        self.raised = None
        self.stack = ()       # the modules of the library on the stack at that point

    def __enter__(self):
        start()
        _now[0] = self
        sys.monitoring.restart_events()
        return self

    def __exit__(self, *exc):
        _now[0] = None

    def reach(self, code, number):
        # (a location which has nothing to tell anymore is disabled)
        where = code.co_filename[len(HERE):], number
        if self.target is not None and (self.raised is not None or where != self.target[:2]):
            return sys.monitoring.DISABLE
        n = self.hits[where] = self.hits.get(where, 0) + 1
        if self.target is None:
            if n > 3:
                return sys.monitoring.DISABLE
            self.order.append((*where, n))
            self.during.setdefault(self.phase, []).append((*where, n))
        elif (*where, n) == self.target:
            f, files = sys._getframe(2), []
            while f is not None:
                if f.f_code.co_filename.startswith(HERE):
                    files.append((f.f_code.co_filename[len(HERE):], f.f_code.co_name))
                f = f.f_back
            self.stack = files
            self.raised = KINDS[self.kind]('injected')
            raise self.raised

    def call(self, func, *args):
        """ The exception, or None. """
        self.armed, self.phase = True, func.__name__
        try:
            func(*args)
        except BaseException as exc:
            if not isinstance(exc, Exception) and exc is not self.raised:
                raise
            return exc
        finally:
            self.armed = False
        return None
