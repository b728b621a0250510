"""Client of work/bin/probe: the crate's parser and formatter behind a line protocol."""
import json, os, queue, select, subprocess, threading
from .core import VERIF

PROBE = os.path.join(VERIF, "work", "bin", "probe")


class Probe:
    def __init__(self):
        self.p = None

    def start(self):
        env = {k: v for k, v in os.environ.items() if not k.startswith(("EU_", "RUST"))}
        self.p = subprocess.Popen([PROBE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        self.buf = b""

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def ask(self, req, timeout=30):
        """The answer, or {"died": status}, or {"timeout": true}."""
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(req).encode() + b"\n")
            self.p.stdin.flush()
            while b"\n" not in self.buf:
                r, _, _ = select.select([self.p.stdout], [], [], timeout)
                if not r:
                    self.stop()
                    return {"timeout": True}
                x = os.read(self.p.stdout.fileno(), 1 << 20)
                if not x:
                    self.p.wait()
                    rc = self.p.returncode
                    self.stop()
                    return {"died": rc}
                self.buf += x
        except BrokenPipeError:
            rc = self.p.poll()
            self.stop()
            return {"died": rc}
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)


_local = threading.local()


def ask(req, timeout=30):
    """One probe process per thread."""
    if not hasattr(_local, "p"):
        _local.p = Probe()
    return _local.p.ask(req, timeout)
