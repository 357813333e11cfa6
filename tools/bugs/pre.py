"""pre-emption and interruption of a call at each of its lines, for demonstrations"""
import sys, threading
WHERE = ("aerokit",)


class Stop(BaseException):
    pass


def at_line(call, n, action, files=WHERE):
    """runs call(); at its n-th line in the given files, runs action() (which may raise). Returns (result, reached)"""
    c = [0, False]

    def local(frame, event, arg):
        if event == "line":
            c[0] += 1
            if c[0] == n and not c[1]:
                c[1] = True
                sys.settrace(None)
                try:
                    action()
                finally:
                    sys.settrace(glob)
        return local

    def glob(frame, event, arg):
        f = frame.f_code.co_filename
        return local if any(w in f for w in files) else None
    sys.settrace(glob)
    try:
        r = call()
    finally:
        sys.settrace(None)
    return r, c[1]


def in_thread(action):
    box = []
    t = threading.Thread(target=lambda: box.append(action()))
    t.start()
    t.join()
    return box


def preempt(call, other, check, nmax=400, files=WHERE):
    """other() runs in another thread at the n-th line of call(), for every n; check(result) each time"""
    for n in range(1, nmax):
        r, reached = at_line(call, n, lambda: in_thread(other), files)
        check(r)
        if not reached:
            return n
    return nmax


def interrupt(make, call, check, nmax=400, files=WHERE, exc=Stop):
    """call(obj) is interrupted at its n-th line, for every n; check(obj) each time"""
    def boom():
        raise exc("stopped here")
    for n in range(1, nmax):
        o = make()
        try:
            _, reached = at_line(lambda: call(o), n, boom, files)
        except exc:
            reached = True
        check(o)
        if not reached:
            return n
    return nmax
