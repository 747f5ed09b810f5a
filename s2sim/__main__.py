import sys

from . import cli

_PRODUCERS = ("worker", "replayworker", "outcomes", "trace")

if __name__ == "__main__":
    rc = cli.main(sys.argv[1:])
    if sys.argv[1:2] and sys.argv[1] in _PRODUCERS:
        # The result is already written.  JAX and XLA keep threads of their own
        # alive, and one of them racing the finalisation of the interpreter can
        # abort the process: an event of the exit, not of the run it reports.
        import os

        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc or 0)
    sys.exit(rc)
