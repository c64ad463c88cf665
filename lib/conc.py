"""Concurrent executions with delays, and executions that are killed, at lines of the code under test."""
import json
import os
import signal
import sys
import time
import traceback

from common import REPO

TIMEOUT = 90


class Lines:
    """Trace function over the lines executed in the repository's files. `at(count, file, line)` is called before each line."""

    def __init__(self, at):
        self.at = at
        self.count = 0
        self.prefix = os.path.realpath(REPO) + os.sep
        self.ours = {}

    def __call__(self, frame, event, arg):
        name = frame.f_code.co_filename
        mine = self.ours.get(name)
        if mine is None:
            mine = self.ours[name] = os.path.realpath(name).startswith(self.prefix)
        return self.line if mine else None

    def line(self, frame, event, arg):
        if event in ("line", "return"):   # "return" also catches what is left to do after the last line of a function
            self.count += 1
            self.at(self.count, frame.f_code.co_filename, frame.f_lineno)
        return self.line

    def __enter__(self):
        sys.settrace(self)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)


def delayer(r, share=0.15, longest=0.004, per_line=3, budget=0.4):
    """Some of the lines, chosen at random per process, get delayed each of the first times that they are executed."""
    hot, left = {}, [budget]

    def at(count, name, line):
        key = (name, line)
        if key not in hot:
            hot[key] = per_line if r.random() < share else 0
        if hot[key] and left[0] > 0:
            hot[key] -= 1
            d = r.random() * longest
            left[0] -= d
            time.sleep(d)
    return at


def killer(target):
    def at(count, name, line):
        if count == target:
            os._exit(77)
    return at


class Child:
    """Runs f() in a forked process; its result (or the error) comes back as JSON."""

    def __init__(self, f, gate=None):
        self.r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.setpgid(0, 0)
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                os.close(self.r)
                if gate is not None:
                    os.close(gate[1])
                    os.read(gate[0], 1)   # returns when the parent closes its end
                try:
                    res = {"ok": f()}
                except Exception as e:
                    res = {"error": "%s: %s" % (type(e).__name__, str(e)[:300]), "trace": traceback.format_exc()[-1500:],
                           "type": type(e).__name__}
                sys.settrace(None)
                data = json.dumps(res, default=str).encode()
                while data:
                    data = data[os.write(w, data):]
                code = 0
            finally:
                os._exit(code)
        os.close(w)

    def result(self, timeout=TIMEOUT):
        import select
        data, t0 = b"", time.time()
        hung = False
        while True:
            left = timeout - (time.time() - t0)
            ready = select.select([self.r], [], [], max(0, left))[0]
            if not ready:
                hung = True
                break
            chunk = os.read(self.r, 65536)
            if not chunk:
                break
            data += chunk
        try:
            os.killpg(self.pid, 9)
        except (ProcessLookupError, PermissionError):
            try:
                if hung:
                    os.kill(self.pid, 9)
            except ProcessLookupError:
                pass
        os.close(self.r)
        _, status = os.waitpid(self.pid, 0)
        if hung:
            return {"hung": True}
        return json.loads(data) if data else {"died": status}


def together(fs):
    """Run all the functions at the same time, each in a process of its own."""
    gate = os.pipe()
    children = [Child(f, gate) for f in fs]
    os.close(gate[0])
    os.close(gate[1])
    return [c.result() for c in children]


def alone(f):
    return Child(f).result()
