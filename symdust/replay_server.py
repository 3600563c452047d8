"""Runs harnesses concretely on the unmodified code of /repo.

With a file argument: replay that counterexample (exit 1 when the property
fails, 0 when it holds).  Without: serve requests from stdin.
"""

import importlib
import json
import os
import shutil
import signal
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DUSTMAKER_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != HERE]
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.setrecursionlimit(5000)

from symdust.ctx import AssumeFailed, CheckFailed, Concrete  # noqa: E402

LIMIT = 20


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def run(req):
    mod = importlib.import_module(req["module"])
    scratch = tempfile.mkdtemp(prefix="dmreplay")
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(LIMIT)
    try:
        ctx = Concrete(req["inputs"], scratch)
        mod.run(ctx, dict(req["case"]))
        return "ok", ""
    except AssumeFailed as exc:
        return "assume", str(exc)
    except CheckFailed as exc:
        return "fail", "assertion: %s" % exc
    except Timeout:
        return "timeout", "no termination within %d s" % LIMIT
    except MemoryError:
        return "timeout", "memory exhausted"
    except Exception as exc:  # pylint: disable=broad-except
        return "fail", "exception: %s: %s" % (type(exc).__name__, str(exc)[:300])
    finally:
        signal.alarm(0)
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    except (ImportError, ValueError):
        pass
    if len(sys.argv) > 1:
        with open(sys.argv[1]) as f:
            req = json.load(f)
        status, msg = run(req)
        print("replay %s: %s %s" % (req.get("property", ""), status, msg))
        return 1 if status in ("fail", "timeout") else 0
    out = os.fdopen(os.dup(1), "w")
    sys.stdout = sys.stderr
    for line in sys.stdin:
        status, msg = run(json.loads(line))
        out.write(json.dumps({"status": status, "message": msg}) + "\n")
        out.flush()
    return 0


if __name__ == "__main__":
    sys.exit(main())
