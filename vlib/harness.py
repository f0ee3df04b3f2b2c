"""Talks to a harness process: one request line in, one JSON line out. A process that dies or
stops answering yields {"crash": ...} for the request it was on and is started again."""
import json
import os
import select
import subprocess
import threading
import time


class Harness:
    def __init__(self, cmd, timeout=20, env=None, cwd=None):
        self.cmd = [cmd] if isinstance(cmd, str) else list(cmd)
        self.timeout, self.env, self.cwd = timeout, env, cwd
        self.p = None

    def _start(self):
        e = dict(os.environ)
        e.update({"TF_CPP_MIN_LOG_LEVEL": "3", "GLOG_minloglevel": "2"})
        e.update(self.env or {})
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, env=e, cwd=self.cwd)
        self.err = b""
        self.buf = b""

        def drain(p):
            while True:
                b = p.stderr.read1(65536)
                if not b:
                    return
                self.err = (self.err + b)[-4000:]
        self.t = threading.Thread(target=drain, args=(self.p,), daemon=True)
        self.t.start()

    def _stop(self):
        p, self.p = self.p, None
        if p:
            try:
                p.kill()
            except OSError:
                pass
            rc = p.wait()
            for f in (p.stdin, p.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.t.join(2)
            return rc

    def _readline(self, deadline):
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = deadline - time.time()
            if left <= 0:
                return None
            if not select.select([fd], [], [], left)[0]:
                return None
            b = os.read(fd, 1 << 20)
            if not b:
                return None
            self.buf += b
        line, self.buf = self.buf.split(b"\n", 1)
        return line

    def run(self, lines):
        """Sends all lines, returns one decoded answer per line."""
        out, i = [], 0
        while i < len(lines):
            if self.p is None:
                self._start()
            todo = lines[i:]
            p = self.p

            def feed():
                try:
                    for x in todo:
                        p.stdin.write(x.encode() + b"\n")
                    p.stdin.flush()
                except (OSError, ValueError):
                    pass
            w = threading.Thread(target=feed, daemon=True)
            w.start()
            ok = True
            for _ in todo:
                line = self._readline(time.time() + self.timeout)
                if line is None:
                    ok = False
                    break
                out.append(json.loads(line))
                i += 1
            if not ok:
                hung = p.poll() is None and time.sleep(0.2) is None and p.poll() is None
                rc = p.poll()
                self._stop()
                w.join(2)
                out.append({"crash": "hang" if hung else "signal/exit %s" % rc,
                            "err": self.err.decode("utf8", "replace")[-600:]})
                i += 1
            else:
                w.join()
        return out

    def close(self):
        if self.p:
            self._stop()


def run_parallel(cmd, lines, workers=6, **kw):
    """Runs request lines over several harness processes, preserving order."""
    n = max(1, min(workers, len(lines) // 50 + 1))
    step = (len(lines) + n - 1) // n
    res = [None] * n

    def go(k):
        h = Harness(cmd, **kw)
        res[k] = h.run(lines[k * step:(k + 1) * step])
        h.close()
    ts = [threading.Thread(target=go, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return [x for r in res for x in r]
