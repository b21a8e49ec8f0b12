"""A driver process asked one line at a time."""
import os, select, signal, subprocess


class Proc:
    def __init__(self, exe, cwd, env, **kw):
        self.p = subprocess.Popen([exe], cwd=cwd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, start_new_session=True, **kw)
        self.buf = b""

    def ask(self, line, timeout=60):
        try:
            self.p.stdin.write(line.encode() + b"\n")
            self.p.stdin.flush()
        except OSError:
            return None
        while b"\n" not in self.buf:
            if not select.select([self.p.stdout], [], [], timeout)[0]:
                return None
            x = os.read(self.p.stdout.fileno(), 1 << 16)
            if not x:
                return None
            self.buf += x
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode("latin-1")

    def end(self):
        for f in (self.p.stdin, ):
            try:
                f.close()
            except OSError:
                pass
        try:
            self.p.wait(20)
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        err = self.p.stderr.read().decode("latin-1")
        self.p.stdout.close()
        self.p.stderr.close()
        self.p.wait()
        return self.p.returncode, err
