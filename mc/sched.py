"""Controlled execution of the code under test: interrupts and thread switches at chosen points.

A "point" is the beginning of the execution of a source line of the package (sys.monitoring LINE
event of a code object whose file is below /repo/src).  `count` numbers the points of a call,
`interrupt` raises at one of them, `interleave` runs two calls in two threads, exactly one of which
runs at a time, switching at prescribed points.
"""

from __future__ import annotations

import ast
import functools
import gc
import sys
import threading
import types

from mc.core import SRC

TOOL = 4
ROOT = str(SRC)
_monitored: set = set()
_hook = None  # called as _hook(code, line) in the thread that reaches the point
_thread_local = threading.local()


class Cut(KeyboardInterrupt):
    """The interrupt injected by `interrupt`."""


def _codes(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from _codes(c)


def install():
    """Subscribes to every function of the package that exists by now (idempotent, cheap to repeat)."""
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "bmi-mc")
        mon.register_callback(TOOL, mon.events.LINE, _on_line)
    for f in gc.get_objects():
        if type(f) is types.FunctionType and f.__code__.co_filename.startswith(ROOT):
            for c in _codes(f.__code__):
                if c not in _monitored:
                    _monitored.add(c)
                    mon.set_local_events(TOOL, c, mon.events.LINE)


def _on_line(code, line):
    h = _hook
    if h is not None:
        h(code, line)


@functools.lru_cache(None)
def cleanup_lines(filename):
    """Lines at which no interrupt is injected: bodies of `finally` and of handlers, `try:` itself (the gap
    between acquiring something and protecting it), and headers of `with` (reached again on leaving)."""
    try:
        tree = ast.parse(open(filename).read())
    except (OSError, SyntaxError):
        return frozenset()
    out = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.Try):
            out.add(node.lineno)
            for part in [*node.finalbody, *node.handlers]:
                out.update(range(part.lineno, part.end_lineno + 1))
        elif isinstance(node, (ast.With, ast.AsyncWith)):
            out.update(range(node.lineno, node.body[0].lineno))
    return frozenset(out)


def trace_points(fn):
    """(result, list of (filename, line)) of an uninterrupted run in this thread."""
    global _hook
    me = threading.get_ident()
    points = []

    def hook(code, line):
        if threading.get_ident() == me:
            points.append((code.co_filename, line))

    _hook = hook
    try:
        result = fn()
    finally:
        _hook = None
    return result, points


def interrupt(fn, k):
    """Runs fn, raising Cut when its k-th point (from 0) is reached.  Returns ("cut", None),
    ("done", result) if the call ended before, or ("raised", exception)."""
    global _hook
    me = threading.get_ident()
    seen = [0]

    def hook(code, line):
        global _hook
        if threading.get_ident() != me:
            return
        if seen[0] == k:
            _hook = None
            seen[0] += 1
            raise Cut()
        seen[0] += 1

    _hook = hook
    try:
        return "done", fn()
    except Cut:
        return "cut", None
    except Exception as e:
        return "raised", e
    finally:
        _hook = None


class Stuck(Exception):
    pass


def interleave(calls, segments, timeout=20.0):
    """Runs the calls in threads of their own.  segments is a list of (thread, points): the thread runs
    until it has passed that many points in all, then the next segment begins; after the last one the
    remaining threads run to their ends in order.  Exactly one thread runs at any time.
    Returns the list of ("done", value) / ("raised", exception), and whether every switch happened."""
    global _hook
    n = len(calls)
    cond = threading.Condition()
    state = {"turn": segments[0][0] if segments else 0, "seg": 0, "stuck": False}
    done = [False] * n
    passed = [0] * n
    out = [None] * n
    ids = {}

    def advance():
        """Chooses who runs next (lock held)."""
        while state["seg"] < len(segments):
            who, upto = segments[state["seg"]]
            if not done[who] and passed[who] < upto:
                state["turn"] = who
                break
            state["seg"] += 1
        else:
            rest = [i for i in range(n) if not done[i]]
            state["turn"] = rest[0] if rest else None
        cond.notify_all()

    def wait(me):
        while state["turn"] != me and not state["stuck"]:
            if not cond.wait(timeout):
                # the running thread waits for something this one holds: let both run
                state["stuck"] = True
                cond.notify_all()

    def hook(code, line):
        me = ids.get(threading.get_ident())
        if me is None:
            return
        with cond:
            if state["stuck"]:
                return
            wait(me)
            passed[me] += 1
            if state["seg"] < len(segments) and passed[me] >= segments[state["seg"]][1]:
                advance()
                wait(me)

    def body(i):
        with cond:
            ids[threading.get_ident()] = i
            wait(i)
        try:
            out[i] = ("done", calls[i]())
        except BaseException as e:  # noqa: BLE001 - handed to the caller
            out[i] = ("raised", e)
        with cond:
            done[i] = True
            advance()

    _hook = hook
    try:
        with cond:
            advance()
        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in threads:
            t.start()
        for t in threads:
            t.join(6 * timeout)
            if t.is_alive():
                raise Stuck("a thread did not end")
    finally:
        _hook = None
    return out, not state["stuck"]
