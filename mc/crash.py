"""A run that is stopped: an exception is raised before the n-th line of the code in /repo
which it executes."""
import sys
from . import threads


class Stop(BaseException):
    """like KeyboardInterrupt: nothing may swallow it"""


class Failure(Exception):
    """an ordinary error: may be turned into a flag"""


def stopped(body, n, kind=Stop):
    """(line where it was stopped, how the run ended)"""
    left, where = [n], [None]

    def local(frame, event, arg):
        if event == 'line' and where[0] is None:
            left[0] -= 1
            if left[0] == 0:
                where[0] = (frame.f_code.co_filename[len(threads.REPO):], frame.f_lineno)
                raise kind('stopped')
        return local

    def start(frame, event, arg):
        if where[0] is None and frame.f_code.co_filename.startswith(threads.REPO):
            return local
        return None
    old = sys.gettrace()
    sys.settrace(start)
    try:
        body()
        return where[0], 'went on'
    except Stop:
        return where[0], 'stopped'
    except Exception as e:
        return where[0], 'failed' if isinstance(e, Failure) else type(e).__name__
    finally:
        sys.settrace(old)
