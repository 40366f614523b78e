"""Linearizability of a read/write register, by brute force over the few
operations of a run.  Events carry the simulator's global sequence number."""


def linearizable(initial, ops):
    """ops: dicts kind ("w"/"r"), value, inv, ret (None: never returned, may
    or may not have taken effect).  Returns True if an order exists."""
    n = len(ops)
    seen = set()

    def search(done, state):
        if all(i in done or ops[i]["ret"] is None for i in range(n)):
            return True
        key = (done, state)
        if key in seen:
            return False
        seen.add(key)
        rest = [i for i in range(n) if i not in done]
        first_ret = min((ops[i]["ret"] for i in rest
                         if ops[i]["ret"] is not None), default=None)
        for i in rest:
            o = ops[i]
            if first_ret is not None and o["inv"] > first_ret:
                continue        # something finished before o began
            if o["kind"] == "w":
                if search(done | frozenset([i]), o["value"]):
                    return True
            elif o["value"] == state:
                if search(done | frozenset([i]), state):
                    return True
        return False
    return search(frozenset(), initial)
