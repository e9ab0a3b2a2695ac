"""Scratch directories, index builds and servers for the checks."""
import atexit
import ctypes
import fcntl
import json
import os
import random
import re
import shutil
import signal
import socket
import subprocess
import tempfile
import threading
import time
import urllib.parse

ASAN = ("abort_on_error=0:exitcode=99:detect_leaks=0:"
        "detect_odr_violation=0:allocator_may_return_null=0:"
        "handle_abort=1:max_allocation_size_mb=6000")
UBSAN = "halt_on_error=1:print_stacktrace=1"
TSAN = "halt_on_error=0:exitcode=66:report_thread_leaks=0:history_size=4"


class Inconclusive(Exception):
    """The machinery could not get an answer (never a verdict)."""


_live = set()
_scratch_dirs = []


def _cleanup():
    for p in list(_live):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    for d in _scratch_dirs:
        shutil.rmtree(d, ignore_errors=True)


atexit.register(_cleanup)


def scratch(prefix="verif-"):
    d = tempfile.mkdtemp(prefix=prefix, dir=os.environ.get("TMPDIR", "/tmp"))
    _scratch_dirs.append(d)
    return d


def drop_scratch(d):
    shutil.rmtree(d, ignore_errors=True)
    if d in _scratch_dirs:
        _scratch_dirs.remove(d)


def base_env(d, extra=None):
    cfg = os.path.join(d, "stxxl.cfg")
    if not os.path.exists(cfg):
        with open(cfg, "w") as f:
            f.write("disk=%s/stxxl.tmp,20MiB,syscall delete\n" % d)
    env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C.UTF-8",
           "HOME": d, "STXXLCFG": cfg, "ASAN_OPTIONS": ASAN,
           "UBSAN_OPTIONS": UBSAN, "TSAN_OPTIONS": TSAN,
           "STXXLLOGFILE": "/dev/null", "STXXLERRLOGFILE": "/dev/null",
           "OMP_NUM_THREADS": "2", "TMPDIR": d, "TZ": "UTC"}
    env.update(extra or {})
    return env


_frame = re.compile(r"^\s*#\d+ 0x[0-9a-f]+ in (.+?) (?:/|\(|<)", re.M)


def sanitizer_key(text):
    """A short, line-number free description of a sanitizer report."""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        frames = []
        for f in _frame.findall(text):
            f = re.sub(r"\(.*", "", f)
            f = re.sub(r"<.*", "", f)
            if f.startswith(("__", "std::", "operator", "memcpy", "mem",
                             "strlen", "void std", "raise", "abort",
                             "gsignal", "__GI")):
                continue
            frames.append(f)
            if len(frames) == 2:
                break
        return "asan:%s:%s" % (m.group(1), "<".join(frames))
    m = re.search(r"(\S+?):\d+:\d+: runtime error: ([^\n]{0,60})", text)
    if m:
        return "ubsan:%s:%s" % (os.path.basename(m.group(1)),
                                re.sub(r"-?\d+", "N", m.group(2)))
    m = re.search(r"Assertion '([^']+)' failed", text)
    if m:
        fn = re.search(r"([\w/.+]+):\d+: ", text)
        return "glibcxx-assert:%s:%s" % (
            os.path.basename(fn.group(1)) if fn else "?", m.group(1))
    m = re.search(r"terminate called[^\n]*\n?[^\n]*", text)
    if m:
        return "terminate:" + re.sub(r"\s+", " ", m.group(0))[:120]
    return None


def run(cmd, d, timeout=120, stdin=None, extra_env=None, limit_as=None):
    """Runs a program in scratch directory d; returns (rc, output).

    rc is None when the time limit was hit."""
    p = subprocess.Popen(cmd, cwd=d, env=base_env(d, extra_env),
                         stdin=subprocess.PIPE if stdin is not None
                         else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    _live.add(p)
    try:
        out, _ = p.communicate(stdin, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = None
    finally:
        _live.discard(p)
    return rc, out.decode("utf-8", "replace")


def build_index(binary, d, name, data, fmt="ttl", args=(), settings=None,
                words=None, docs=None, timeout=240, via_stdin=False,
                extra_env=None):
    """Writes data to a file and runs the index builder on it."""
    os.makedirs(d, exist_ok=True)
    ext = {"ttl": "ttl", "nt": "nt", "tsv": "tsv", "mmap": "ttl"}[fmt]
    path = os.path.join(d, "%s.%s" % (name, ext))
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())
    cmd = [binary, "-F", fmt, "-i", os.path.join(d, name)]
    cmd += ["-f", "-"] if via_stdin else ["-f", path]
    if settings is not None:
        sp = os.path.join(d, name + ".settings.json")
        with open(sp, "w") as f:
            json.dump(settings, f)
        cmd += ["-s", sp]
    for flag, text, ext in (("-w", words, "wordsfile.tsv"),
                            ("-d", docs, "docsfile.tsv")):
        if text is not None:
            wp = os.path.join(d, "%s.%s" % (name, ext))
            with open(wp, "w") as f:
                f.write(text)
            cmd += [flag, wp]
    cmd += list(args)
    stdin = None
    if via_stdin:
        stdin = data if isinstance(data, bytes) else data.encode()
    return run(cmd, d, timeout, stdin, extra_env)


_libc = ctypes.CDLL(None, use_errno=True)


def _die_with_parent():
    _libc.prctl(1, signal.SIGKILL)


def free_port():
    """A port below the ephemeral range that no other worker uses: returns
    (port, lock file); the lock is held as long as the file is open."""
    while True:
        port = _ports.randrange(10000, 31000)
        f = open("%s/verif-port-%d.lock" % (
            os.environ.get("TMPDIR", "/tmp"), port), "a")
        try:
            fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except OSError:
            f.close()
            continue
        s = socket.socket()
        try:
            s.bind(("127.0.0.1", port))
            return port, f
        except OSError:
            f.close()
        finally:
            s.close()


_ports = random.SystemRandom()


class Server:
    def __init__(self, binary, d, name, args=(), threads=2, mem_gb=1,
                 cache_gb=1, cache_single_gb=1, start_timeout=60,
                 extra_env=None):
        self.d, self.name = d, name
        self.binary = binary
        self.args = list(args)
        self.threads = threads
        self.mem, self.cache, self.single = mem_gb, cache_gb, cache_single_gb
        self.extra_env = extra_env
        self.start_timeout = start_timeout
        self.p = None
        self.start()

    def start(self):
        last = None
        for _ in range(4):
            self.port, self.portlock = free_port()
            self.logpath = os.path.join(self.d, "%s.%d.log"
                                        % (self.name, self.port))
            self.logf = open(self.logpath, "wb")
            cmd = [self.binary, "-i", os.path.join(self.d, self.name),
                   "-p", str(self.port), "-j", str(self.threads),
                   "-m", str(self.mem), "-c", str(self.cache),
                   "-e", str(self.single)] + self.args
            self.p = subprocess.Popen(
                cmd, cwd=self.d, env=base_env(self.d, self.extra_env),
                stdin=subprocess.DEVNULL, stdout=self.logf,
                stderr=subprocess.STDOUT, start_new_session=True,
                preexec_fn=_die_with_parent)
            _live.add(self.p)
            t0 = time.time()
            while time.time() - t0 < self.start_timeout:
                if self.p.poll() is not None:
                    break
                try:
                    s = socket.create_connection(("127.0.0.1", self.port), 1)
                    # The server takes one request per connection.
                    s.sendall(b"GET /?cmd=stats HTTP/1.1\r\n\r\n")
                    s.settimeout(self.start_timeout)
                    if s.recv(16) and self.p.poll() is None:
                        s.close()
                        return
                    s.close()
                except OSError:
                    time.sleep(0.02)
            last = self.log()
            self.stop()
            if "Failed to create socket" in last:
                continue
            break
        raise ServerDied(self, last or "")

    def log(self):
        try:
            with open(self.logpath, "rb") as f:
                return f.read().decode("utf-8", "replace")
        except OSError:
            return ""

    def alive(self):
        return self.p.poll() is None

    def stop(self):
        if self.p is not None and self.p.poll() is None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
        if self.p is not None:
            _live.discard(self.p)
        self.logf.close()
        self.portlock.close()

    def raw(self, data, timeout=60, half_close=False):
        """Sends bytes, returns everything up to the end of the connection."""
        s = socket.create_connection(("127.0.0.1", self.port), timeout)
        try:
            s.settimeout(timeout)
            if data:
                s.sendall(data)
            if half_close:
                s.shutdown(socket.SHUT_WR)
            out = []
            while True:
                b = s.recv(65536)
                if not b:
                    break
                out.append(b)
            return b"".join(out)
        finally:
            s.close()

    def get(self, params, timeout=60):
        req = "GET /?%s HTTP/1.1\r\nHost: localhost\r\n\r\n" % \
            urllib.parse.urlencode(params)
        try:
            resp = self.raw(req.encode(), timeout)
        except socket.timeout:
            raise Hang(self, params)
        except OSError as e:
            self._dead(e)
        if not resp:
            self._dead("empty response")
        head, _, body = resp.partition(b"\r\n\r\n")
        head = head.decode("latin-1")
        m = re.search(r"(?i)^content-length: *(\d+)\s*$", head, re.M)
        if not m or int(m.group(1)) != len(body):
            raise BadResponse(self, head, body, "content length")
        return head, body

    def _dead(self, why):
        for _ in range(100):
            if not self.alive():
                raise ServerDied(self, self.log())
            time.sleep(0.02)
        raise Dropped(self, str(why))

    def query(self, q, timeout=60, limit=None, **params):
        """limit: the time limit the server is asked to observe."""
        params = dict(params, query=q)
        if limit is not None:
            params["timeout"] = limit
        head, body = self.get(params, timeout)
        try:
            return json.loads(body.decode("utf-8"))
        except (ValueError, UnicodeDecodeError) as e:
            raise BadResponse(self, head, body, str(e))


class ServerFault(Exception):
    pass


class ServerDied(ServerFault):
    def __init__(self, srv, log):
        self.srv = srv
        self.logtext = log
        self.rc = srv.p.returncode if srv.p is not None else None
        self.key = sanitizer_key(log) or "exit:%s" % self.rc
        super().__init__("server died (%s): %s" % (self.rc, self.key))


class Hang(ServerFault):
    def __init__(self, srv, params):
        self.srv = srv
        self.key = "hang"
        super().__init__("no response in time")


class Dropped(ServerFault):
    def __init__(self, srv, why):
        self.srv = srv
        self.key = "dropped-connection"
        super().__init__("connection closed without a response: " + why)


class BadResponse(ServerFault):
    def __init__(self, srv, head, body, why):
        self.srv = srv
        self.key = "bad-response"
        self.head, self.body = head, body
        super().__init__("malformed response: %s: %r"
                         % (why, body[:200]))
