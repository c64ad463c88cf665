"""Worker process: reads one job per line on stdin, runs it in a scratch directory, writes one result line."""
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

LIB = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, LIB)


class Hang(BaseException):
    """No event (activation, round, collection) was seen for a long time."""


class Slow(BaseException):
    """The scenario makes progress, but takes longer than we can afford."""


QUIET_LIMIT = 60   # CPU seconds; an activation takes at most a second or so


class Ctx:
    """What a job gets: counters, distinct keys, violations, samples."""

    def __init__(self, job):
        self.job = job
        self.counts = {}
        self.distinct = set()
        self.violations = []
        self.samples = []
        self.notes = []

    def count(self, name, by=1):
        self.counts[name] = self.counts.get(name, 0) + by

    def seen(self, key):
        if len(self.distinct) < 5000:
            self.distinct.add(key if isinstance(key, str) else json.dumps(key, default=str))

    def violation(self, msg, key=None, **detail):
        if len(self.violations) < 5:
            self.violations.append({"msg": msg, "key": key, "detail": detail})

    def check(self, cond, msg, key=None, **detail):
        if not cond:
            self.violation(msg, key, **detail)
        return cond

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)


def main():
    prop = sys.argv[1]
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    base = os.environ["VERIF_SCRATCH"]
    module = importlib.import_module("props." + prop.lower())

    clock = {"start": 0.0}
    slow_limit = 25 if os.environ.get("VERIF_TIER") != "thorough" else 300

    def watchdog(*_):
        now = time.process_time()
        last = max(clock["start"], getattr(sys.modules.get("sut"), "last_event", 0))
        if now - last > QUIET_LIMIT:
            raise Hang()
        if now - clock["start"] > slow_limit and now - last < 5:
            raise Slow()

    signal.signal(signal.SIGVTALRM, watchdog)
    for line in sys.stdin:
        job = json.loads(line)
        ctx = Ctx(job)
        scratch = tempfile.mkdtemp(dir=base)
        os.chdir(scratch)
        status = "ok"
        try:
            clock["start"] = time.process_time()
            signal.setitimer(signal.ITIMER_VIRTUAL, 2, 2)
            module.run(job, ctx)
        except Hang:
            status = "hang"
            ctx.violation("an agent's turn (or another single operation) took more than %d s of CPU time, which normally takes "
                          "less than one" % QUIET_LIMIT, key="hang", trace=traceback.format_exc()[-1500:])
        except Slow:
            status = "slow"   # given up; what was observed up to here counts
        except MemoryError:
            status = "inconclusive"
            ctx.notes.append("out of memory")
        except Exception as e:
            tb = traceback.format_exc()
            last = traceback.extract_tb(e.__traceback__)[-1].filename
            in_harness = os.path.abspath(last).startswith(LIB)
            if in_harness and isinstance(e, (AttributeError, ImportError, NameError, TypeError, AssertionError)):
                # the monitor could not observe what it needs to: that says nothing about the property
                status = "inconclusive"
                ctx.notes.append("monitor failed: " + tb[-1500:])
            else:
                status = "crash"
                ctx.violation(("the observed state does not make sense" if in_harness else "the engine failed") +
                              " on a valid scenario: %s: %s" % (type(e).__name__, str(e)[:300]),
                              key="crash-harness" if in_harness else "crash", trace=tb[-3000:])
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            os.chdir("/")
            shutil.rmtree(scratch, ignore_errors=True)
        out.write(json.dumps({"status": status, "counts": ctx.counts, "distinct": sorted(ctx.distinct),
                              "violations": ctx.violations, "samples": ctx.samples, "notes": ctx.notes},
                             default=str) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
