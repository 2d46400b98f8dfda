"""Fault injectors: failing sources and interrupts at an exact line of the solver."""
import os
import sys

SRC = os.path.join(os.environ.get("REPO", "/repo"), "python", "src") + os.sep


class SourceFault(Exception):
    """Raised by a simulated source."""


class BaseFault(BaseException):
    """Like an interrupt: not an Exception, must not be caught by the solver."""


KINDS = {"error": SourceFault, "interrupt": KeyboardInterrupt, "memory": MemoryError, "base": BaseFault, "value": ValueError,
         "zero": ZeroDivisionError, "index": IndexError, "os": OSError, "stop": StopIteration, "attr": AttributeError}


class Fuse:
    """Counts the reads of every source of a world; read number `at` fails once."""

    def __init__(self):
        self.count = 0
        self.at = None
        self.kind = None
        self.raised = None
        self.when = None

    def arm(self, after, kind):
        self.at = self.count + after
        self.kind = kind
        self.raised = None

    def disarm(self):
        self.at = None

    def __call__(self, f):
        fuse = self

        def src(t):
            n = fuse.count
            fuse.count += 1
            if fuse.at is not None and n >= fuse.at:
                fuse.at = None
                fuse.raised = KINDS[fuse.kind]("injected")
                fuse.when = float(t)
                raise fuse.raised
            return f(t)
        return src


class Tracer:
    """Delivers KeyboardInterrupt (or another exception) at the n-th executed line of the solver."""

    def __init__(self, at, kind="interrupt"):
        self.at = at
        self.n = 0
        self.kind = kind
        self.raised = None
        self.where = None

    def _local(self, frame, event, arg):
        if event == "line":
            if self.n == self.at:
                self.n += 1
                self.raised = KINDS[self.kind]("injected")
                self.where = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                sys.settrace(None)
                raise self.raised
            self.n += 1
        return self._local

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(SRC):
            return self._local
        return None

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False
