"""run a function in a forked child; result by pickle over a pipe; wall-clock guard is an error, never a verdict"""
import os, sys, pickle, select, signal, time, traceback


class HarnessError(Exception):
    pass


def forked(fn, *args, timeout=120):
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            try:
                res = ("ok", fn(*args))
            except BaseException:
                res = ("err", traceback.format_exc())
            data = pickle.dumps(res, protocol=5)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            try:
                os.write(2, traceback.format_exc().encode())
            except OSError:
                pass
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    end = time.monotonic() + timeout
    timed = False
    with os.fdopen(r, "rb", buffering=0) as f:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                timed = True
                break
            rl, _, _ = select.select([f], [], [], left)
            if not rl:
                continue
            b = f.read(1 << 20)
            if not b:
                break
            buf.append(b)
    if timed:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise HarnessError("child exceeded %ss wall clock" % timeout)
    _, st = os.waitpid(pid, 0)
    if not buf:
        raise HarnessError("child died with status %r and no result" % st)
    tag, val = pickle.loads(b"".join(buf))
    if tag == "err":
        raise HarnessError(val)
    return val
