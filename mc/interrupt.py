"""Interruption of real code at every executed line.

The scheduling points are the executed source lines of the package; a run is
interrupted by raising KeyboardInterrupt just before a given one.
"""

import sys

from mc import threads


class Interrupted(KeyboardInterrupt):
    pass


def _traced(fn, point):
    base = threads.package_dir()
    lines = []

    def local(frame, event, arg):
        if event == 'line':
            lines.append((frame.f_code.co_filename, frame.f_lineno))
            if len(lines) == point:
                raise Interrupted()
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(base) else None

    before = sys.gettrace()
    sys.settrace(tracer)
    try:
        return fn(), lines
    finally:
        sys.settrace(before)


def lines_of(fn):
    """Lines of the package executed by the call, in order."""
    return _traced(fn, None)[1]


def run_until(fn, point):
    """Run the call, interrupted before its line number `point` (from 1);
    returns whether it was."""
    try:
        _traced(fn, point)
    except Interrupted:
        return True
    return False


def points(lines, limit):
    """Points to interrupt at: all of them, or the first, second and last
    execution of every line and an even grid of up to `limit` others."""
    if len(lines) <= limit:
        return list(range(1, len(lines) + 1))
    seen, last, out = {}, {}, set()
    for n, line in enumerate(lines, 1):
        seen[line] = seen.get(line, 0) + 1
        if seen[line] <= 2:
            out.add(n)
        last[line] = n
    out.update(last.values())
    rest = max(limit - len(out), limit // 3)
    out.update(1 + (a * (len(lines) - 1)) // rest for a in range(rest + 1))
    return sorted(out)
