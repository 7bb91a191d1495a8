"""Run the command line of the code under test, in process"""
import contextlib
import io
import os
import cdtb.__main__ as cdtb_main


class Stream(io.StringIO):
    """Captured stream with a (non terminal) file descriptor"""

    def fileno(self):
        return _devnull.fileno()


_devnull = open(os.devnull, "w")


def run_cli(argv):
    """Return (exit status, stdout, stderr); a usage error is exit status 2.  Other exceptions propagate."""
    out, err = Stream(), Stream()
    rc = 0
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            cdtb_main.main([str(a) for a in argv])
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    return rc, out.getvalue(), err.getvalue()
