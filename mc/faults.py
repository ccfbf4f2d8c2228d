"""Deterministic fault injection into the real code."""
import os
import sys


class Interrupt(KeyboardInterrupt):
    """The injected asynchronous interrupt (as by Ctrl-C)."""


def repo_prefix():
    import qopt
    return os.path.dirname(os.path.abspath(qopt.__file__)) + os.sep


class LineFault:
    """Raises Interrupt when the k-th line of the package is about to run.

    With k=None only counts the lines."""

    def __init__(self, k=None, exc=Interrupt):
        self.k = k
        self.count = 0
        self.prefix = repo_prefix()
        self.fired = False
        self.exc = exc
        self.where = None

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.prefix):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            if self.k is not None and self.count == self.k:
                self.count += 1
                self.fired = True
                self.where = '%s:%d' % (os.path.basename(
                    frame.f_code.co_filename), frame.f_lineno)
                sys.settrace(None)
                raise self.exc('injected')
            self.count += 1
        return self._local

    def run(self, func):
        """Returns True if func completed, False if it was interrupted."""
        old = sys.gettrace()
        sys.settrace(self._global)
        try:
            func()
            return True
        except self.exc:
            if not self.fired:
                raise
            return False
        finally:
            sys.settrace(old)


def count_lines(func):
    f = LineFault(None)
    f.run(func)
    return f.count
