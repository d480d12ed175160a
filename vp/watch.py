"""Observers and fault injectors at the interpreter level.

* ``Audit``: every file-system, socket and process event the interpreter
  reports (sys.addaudithook), optionally failing the n-th of them.
* ``in_child``: run something in a forked process that may be killed at its
  k-th executed line, or be delayed at random lines (sys.monitoring).
"""
import os
import pickle
import random
import resource
import signal
import sys
import threading
import time
import traceback

_WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
_FS = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod",
       "os.chown", "os.utime", "shutil.rmtree", "shutil.move", "shutil.copyfile", "shutil.unpack_archive"}
_DIR_FD = {"os.remove": 1, "os.rmdir": 1, "os.mkdir": 2, "os.rename": 2, "os.chmod": 2}
_OTHER = {"socket.connect", "socket.getaddrinfo", "socket.bind", "subprocess.Popen", "os.system", "os.exec",
          "os.posix_spawn"}

_active = []
_installed = False


def _hook(event, args):
    if not _active:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(path, int):
            return
        wr = bool(flags & _WRITE_FLAGS) if isinstance(flags, int) else False
        if isinstance(mode, str) and any(c in mode for c in "wax+"):
            wr = True
        kind = "write" if wr else "read"
        for aud in list(_active):
            aud.event(kind, path)
    elif event in _FS:
        path = args[0]
        at = _DIR_FD.get(event)
        if at is not None and len(args) > at and isinstance(args[at], int) and args[at] >= 0:
            try:      # relative to an open directory
                path = os.path.join(os.readlink(f"/proc/self/fd/{args[at]}"), os.fsdecode(os.fspath(path)))
            except (OSError, TypeError):
                pass
        for aud in list(_active):
            aud.event(event, path, args[1] if len(args) > 1 else None)
    elif event in _OTHER:
        for aud in list(_active):
            aud.event(event, repr(args)[:200])


class Audit:
    """Records file-system and process events."""

    def __init__(self, fail_at=None, error=None, only_under=None, reads=True):
        global _installed
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        self.log = []
        self.fail_at = fail_at
        self.error = error or OSError(28 + 1000, "injected")
        self.only_under = str(only_under) if only_under else None
        self.reads = reads
        self.count = 0
        self.failed = None

    def event(self, kind, path, other=None):
        """Record one event, and fail it if it is its turn."""
        try:
            spath = os.fspath(path)
            if isinstance(spath, bytes):
                spath = os.fsdecode(spath)
        except TypeError:
            spath = str(path)
        if kind == "read" and not self.reads:
            return
        full = os.path.abspath(spath) if kind in _FS or kind in ("read", "write") else spath
        if kind == "os.mkdir" and os.path.isdir(full):
            return    # exists already: the call changes nothing
        self.log.append((kind, full))
        if kind in ("os.rename", "os.link", "os.symlink") and isinstance(other, (str, bytes, os.PathLike)):
            self.log.append((kind + "->", os.path.abspath(os.fsdecode(os.fspath(other)))))
        if kind == "read":
            return
        if self.only_under and not full.startswith(self.only_under):
            return
        self.count += 1
        if self.fail_at is not None and self.count == self.fail_at:
            self.failed = (kind, full)
            raise self.error

    def __enter__(self):
        _active.append(self)
        return self

    def __exit__(self, *exc):
        _active.remove(self)
        return False

    def paths(self, kinds=None):
        """Paths of the recorded events."""
        return [p for k, p in self.log if kinds is None or k in kinds]

    @property
    def mutations(self):
        """Events that change the file system."""
        return [(k, p) for k, p in self.log if k != "read" and k not in _OTHER]

    @property
    def outside(self):
        """Socket and process events."""
        return [(k, p) for k, p in self.log if k in _OTHER]


_TOOL = 3


def _arm_lines(kill_at=None, delay=None, files=()):
    """In a child: die at the k-th executed line, or sleep at random lines of the given files."""
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "vp-inject")
    state = {"n": 0}

    if delay is not None:
        rnd = random.Random(delay)

    def line(code, lineno):
        fname = code.co_filename
        if files and not any(f in fname for f in files):
            return mon.DISABLE
        state["n"] += 1
        if kill_at is not None and state["n"] >= kill_at:
            os.kill(os.getpid(), signal.SIGKILL)
        if delay is not None and rnd.random() < 0.02:
            time.sleep(rnd.random() * 0.002)
        return None

    mon.register_callback(_TOOL, mon.events.LINE, line)
    mon.set_events(_TOOL, mon.events.LINE)
    return state


LINE_FILES = ("pyspectral", "zipfile", "_npyio_impl", "npyio", "format.py", "tarfile", "shutil", "gzip", "h5py")


def private_progress_bars():
    """Progress bars share a lock between forked processes: a killed one would leave it locked for all others."""
    try:
        from tqdm import tqdm
    except ImportError:
        return
    tqdm.monitor_interval = 0
    tqdm.set_lock(threading.RLock())


def in_child(func, kill_at=None, delay=None, fsize=None, files=LINE_FILES, timeout=200, wait=True, barrier=None):
    """Run func() in a forked child.  Returns (status, result) - status 'ok', 'exc' or 'killed'."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        code = 0
        try:
            signal.alarm(0)
            sys.monitoring.set_events(4, 0)     # the coverage tool of the parent
        except Exception:
            pass
        try:
            private_progress_bars()
            import dask
            dask.config.set(scheduler="synchronous")    # the parent's thread pool did not survive the fork
            if fsize is not None:
                null = os.open(os.devnull, os.O_WRONLY)     # the limit is meant for the data, not for this suite's output
                os.dup2(null, 1)
                os.dup2(null, 2)
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
            if barrier is not None:
                os.read(barrier, 1)
            state = None
            if kill_at is not None or delay is not None:
                state = _arm_lines(kill_at, delay, files)
            try:
                res = ("ok", func())
            except Exception as err:
                res = ("exc", (type(err).__name__, str(err)[:300], traceback.format_exc()[-1200:]))
            if state is not None:
                sys.monitoring.set_events(_TOOL, 0)
            out = pickle.dumps((res, state["n"] if state else 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY,) * 2) if fsize is None else None
            view = memoryview(out)
            while view:
                view = view[os.write(wfd, view):]
        except BaseException:
            code = 71
        finally:
            os._exit(code)
    os.close(wfd)
    if not wait:
        return pid, rfd
    return collect(pid, rfd, timeout)


def collect(pid, rfd, timeout=200):
    """Wait for a child started by in_child(wait=False)."""
    import select
    chunks = []
    end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(rfd)
            return "timeout", None, 0
        ready, _, _ = select.select([rfd], [], [], left)
        if ready:
            data = os.read(rfd, 1 << 16)
            if not data:
                break
            chunks.append(data)
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    if not chunks:
        return "killed", status, 0
    (kind, res), nlines = pickle.loads(b"".join(chunks))
    return kind, res, nlines
