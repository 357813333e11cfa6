"""linearizability of short histories against an executable model (Wing & Gong search, memoised)"""


def linearizable(hist, init, step, limit=200000):
    """hist: [(inv, ret, op, res)], step(state, op, res) -> iterable of successor states; -> True/False"""
    n = len(hist)
    full = (1 << n) - 1
    seen = set()
    stack = [(0, init)]
    work = 0
    while stack:
        done, st = stack.pop()
        if done == full:
            return True
        if (done, st) in seen:
            continue
        seen.add((done, st))
        work += 1
        if work > limit:
            raise RuntimeError("history too long")
        first_ret = min(h[1] for i, h in enumerate(hist) if not done >> i & 1)
        for i, h in enumerate(hist):
            if done >> i & 1 or h[0] > first_ret:
                continue
            for ns in step(st, h[2], h[3]):
                stack.append((done | 1 << i, ns))
    return False
