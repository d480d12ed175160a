"""Observer of log records."""
import contextlib
import logging


class Records(logging.Handler):
    """Keeps the records."""

    def __init__(self):
        super().__init__(level=0)
        self.records = []

    def emit(self, record):
        """Keep a record."""
        self.records.append(record)

    def warnings(self):
        """Messages of warning level and above."""
        return [r.getMessage() for r in self.records if r.levelno >= logging.WARNING]


@contextlib.contextmanager
def capture(name="pyspectral"):
    """Capture the records of a logger tree."""
    log = logging.getLogger(name)
    rec = Records()
    old = log.level
    log.addHandler(rec)
    log.setLevel(logging.DEBUG)
    try:
        yield rec
    finally:
        log.removeHandler(rec)
        log.setLevel(old)
