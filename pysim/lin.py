"""Linearizability of a recorded history: is there an order of the operations, respecting which ended before which began, that explains them all?"""


class Op:
    __slots__ = ('b', 'e', 'te', 'name', 'apply')

    def __init__(self, b, name, apply):
        self.b = b
        self.e = self.te = None
        self.name = name
        self.apply = apply     # state -> new state, or None if it cannot be


def explained(ops, init, limit=200000):
    """ops without end may take effect or not. Returns (True, None) or (False, last state description), or None if it was too long to decide"""
    ops = sorted(ops, key=lambda o: o.b)
    n = len(ops)
    complete = 0
    for i, o in enumerate(ops):
        if o.e is not None:
            complete |= 1 << i
    seen = set()
    stack = [(0, init)]
    steps = 0
    best = 0
    while stack:
        done, st = stack.pop()
        if (done, st) in seen:
            continue
        seen.add((done, st))
        steps += 1
        if steps > limit:
            return None
        if done & complete == complete:
            return True, None
        c = bin(done & complete).count('1')
        best = max(best, c)
        # an operation may be next if no pending one ended before it began
        first_end = min(ops[i].e for i in range(n) if not done >> i & 1 and ops[i].e is not None)
        for i in range(n):
            if done >> i & 1 or ops[i].b > first_end:
                continue
            for ns in ops[i].apply(st):
                stack.append((done | 1 << i, ns))
    return False, '%d of %d operations can be explained' % (best, bin(complete).count('1'))
