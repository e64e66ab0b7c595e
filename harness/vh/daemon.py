"""Drive the daemon's request handling: in process (socketpair) or as a real process."""
import os
import re
import signal
import socket
import subprocess
import sys
import threading
import time

from vh import core, oah

import oa.server


class InProc(object):
    """A real oa.server.Server whose requests arrive over socket pairs, one at a time."""

    def __init__(self, confdir, sitedir=None, cls=None, **kw):
        old = signal.getsignal(signal.SIGUSR1), signal.getsignal(signal.SIGTERM)
        self.server = (cls or oa.server.Server)(
            ("127.0.0.1", 0), sitedir or confdir, confdir, **kw)
        signal.signal(signal.SIGUSR1, old[0])
        signal.signal(signal.SIGTERM, old[1])
        self.errors = []
        self.server.handle_error = self._error

    def _error(self, request, client_address):
        self.errors.append(sys.exc_info()[1])

    def close(self):
        self.server.server_close()

    def request(self, data, segments=None, shutdown=True, delay=0):
        """Send raw bytes (optionally split at the given offsets), return raw response."""
        a, b = socket.socketpair()
        for s in (a, b):
            s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
        out = []

        def reader():
            while True:
                try:
                    c = a.recv(1 << 16)
                except OSError:
                    break
                if not c:
                    break
                out.append(c)

        def writer():
            try:
                last = 0
                for off in list(segments or ()) + [len(data)]:
                    a.sendall(data[last:off])
                    last = off
                    if delay:
                        time.sleep(delay)
                if shutdown:
                    a.shutdown(socket.SHUT_WR)
            except OSError:
                pass

        tr = threading.Thread(target=reader, name="vh-reader")
        tw = threading.Thread(target=writer, name="vh-writer")
        tr.start()
        tw.start()
        try:
            try:
                self.server.process_request(b, ("127.0.0.1", 1))
            except Exception:
                self.server.handle_error(b, ("127.0.0.1", 1))
                self.server.shutdown_request(b)
        finally:
            b.close()
            tw.join()
            tr.join()
            a.close()
        return b"".join(out)


HEAD_RE = re.compile(rb"^SPAMD/(\S+) (\d+) ([^\r\n]*)\r\n")
SPAM_RE = re.compile(rb"^Spam: (True|False) ; (-?[0-9.]+(?:e[+-]?\d+)?|-?inf|nan) / (\S+)\r\n")
LEN_RE = re.compile(rb"^Content-length: (\d+)\r\n\r\n")


class Response(object):
    def __init__(self, raw):
        self.raw = raw
        self.ok = False
        self.problem = None
        self.code = self.message = self.spam = self.score = self.required = None
        self.length = self.body = None
        m = HEAD_RE.match(raw)
        if not m:
            self.problem = "no status line"
            return
        self.code = int(m.group(2))
        self.message = m.group(3).decode("latin1")
        rest = raw[m.end():]
        if self.code != 0:
            self.rest = rest
            self.ok = True
            return
        m = SPAM_RE.match(rest)
        if m:
            self.spam = m.group(1) == b"True"
            self.score = m.group(2).decode()
            self.required = m.group(3).decode()
            rest = rest[m.end():]
            m = LEN_RE.match(rest)
            if not m:
                self.problem = "no content length"
                return
            self.length = int(m.group(1))
            self.body = rest[m.end():]
        else:
            self.rest = rest
        self.ok = True


def req(cmd, msg=None, headers=(), version="SPAMC/1.2", length=True):
    if isinstance(msg, str):
        msg = msg.encode("utf8")
    lines = ["%s %s" % (cmd, version)]
    for h in headers:
        lines.append(h)
    if msg is not None and length:
        lines.append("Content-length: %d" % len(msg))
    return ("\r\n".join(lines) + "\r\n\r\n").encode("utf8") + (msg or b"")


def free_port():
    s = socket.socket()
    try:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]
    finally:
        s.close()


class Process(object):
    """scripts/oad.py as a process of its own."""

    def __init__(self, confdir, workdir, sitedir=None, prefork=None, args=(), env=None, root=None):
        self.workdir = workdir
        self.retried = []
        for _ in range(4):
            self.port = free_port()
            cmd = [sys.executable]
            if root:
                cmd += [os.path.join(core.VERIF, "harness", "oadrun.py"), root]
            cmd += [os.path.join(core.REPO, "scripts", "oad.py"), "-i", "127.0.0.1",
                   "-p", str(self.port), "-C", confdir, "-S", sitedir or confdir,
                   "-r", os.path.join(workdir, "oad.pid"), "--log-file", os.path.join(workdir, "oad.log")]
            if prefork:
                cmd += ["--prefork", str(prefork)]
            cmd += list(args)
            e = dict(os.environ)
            e["PYTHONPATH"] = os.pathsep.join([core.REPO, os.path.join(core.VERIF, "harness")])
            e.update(env or {})
            self.err = open(os.path.join(workdir, "oad.err"), "wb")
            self.proc = subprocess.Popen(cmd, stdout=self.err, stderr=self.err, stdin=subprocess.DEVNULL, env=e,
                                         cwd=workdir, start_new_session=True)
            if self.wait_up():
                for _ in range(600):
                    if len(self.workers()) >= (prefork or 0):
                        return
                    time.sleep(.05)
            self.stop()
        raise RuntimeError("the daemon did not start: %s" % self.output()[-1500:])

    def wait_up(self, timeout=60):
        end = time.time() + timeout
        while time.time() < end:
            if self.proc.poll() is not None:
                return False
            try:
                s = socket.create_connection(("127.0.0.1", self.port), 1)
            except OSError:
                time.sleep(.05)
                continue
            s.close()
            return True
        return False

    def output(self):
        out = []
        for n in ("oad.err", "oad.log"):
            try:
                with open(os.path.join(self.workdir, n), "rb") as f:
                    out.append(f.read().decode("utf8", "replace"))
            except OSError:
                pass
        return "\n".join(out)

    def workers(self):
        """pids of the children of the daemon."""
        try:
            with open("/proc/%d/task/%d/children" % (self.proc.pid, self.proc.pid)) as f:
                return [int(x) for x in f.read().split()]
        except OSError:
            return []

    def signal(self, sig):
        os.kill(self.proc.pid, sig)

    def stop(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()
        self.err.close()

    def request(self, data, segments=None, shutdown=True, delay=0, timeout=60, stall=None):
        """(response bytes, problem).  When more clients connect at once than the listening socket has places for,
        the system resets some before the daemon knows of them; such clients come again, and are counted."""
        for attempt in range(5):
            got, problem = self._request(data, segments, shutdown, delay, timeout)
            if got or not problem or "ConnectionReset" not in problem and "BrokenPipe" not in problem:
                break
            self.retried.append(problem)
            time.sleep(.1 * (attempt + 1))
        return got, problem

    def _request(self, data, segments, shutdown, delay, timeout):
        s = socket.create_connection(("127.0.0.1", self.port), timeout)
        s.settimeout(timeout)
        out = []
        problem = None
        try:
            last = 0
            try:
                for off in list(segments or ()) + [len(data)]:
                    s.sendall(data[last:off])
                    last = off
                    if delay:
                        time.sleep(delay)
                if shutdown:
                    s.shutdown(socket.SHUT_WR)
            except OSError as e:
                problem = "send: %r" % e
            while True:
                c = s.recv(1 << 16)
                if not c:
                    break
                out.append(c)
        except OSError as e:
            problem = "recv: %r" % e
        finally:
            s.close()
        return b"".join(out), problem

    def abuse(self, data, how, timeout=30):
        """Send data and break off: close, reset, read a little first."""
        s = socket.create_connection(("127.0.0.1", self.port), timeout)
        s.settimeout(timeout)
        got = b""
        try:
            try:
                s.sendall(data)
                if how == "read":
                    s.settimeout(.1)
                    got = s.recv(5)
                elif how == "eof":
                    s.shutdown(socket.SHUT_WR)
                    while True:
                        c = s.recv(1 << 16)
                        if not c:
                            break
                        got += c
            except OSError:
                pass
            if how == "reset":
                import struct
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        finally:
            s.close()
        return got
