"""Outcome of one simulated run, shared by all properties."""
import hashlib
import json


class Outcome:
    def __init__(self):
        self.violation = None  # (class, message)
        self.stats = {}
        self.sigs = set()  # distinct states / interleavings reached
        self.nontrivial = False
        self.log = hashlib.sha1()  # event log digest: equal for equal executions

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def event(self, *what):
        self.log.update(repr(what).encode())

    def sig(self, *what):
        self.sigs.add(hashlib.sha1(repr(what).encode()).hexdigest()[:12])

    def fail(self, cls, msg):
        if self.violation is None:
            self.violation = (cls, str(msg)[:2000])
        self.event("fail", cls)

    def as_dict(self):
        return {
            "v": self.violation,
            "stats": self.stats,
            "sigs": sorted(self.sigs),
            "nt": self.nontrivial,
            "log": self.log.hexdigest()[:16],
        }


def canon(sc):
    return json.dumps(sc, sort_keys=True)


def generic_shrinks(sc, keys=("steps", "schedule", "prefix")):
    """Candidates with parts of the top-level lists removed, large parts first."""
    for key in keys:
        lst = sc.get(key)
        if not isinstance(lst, list) or not lst:
            continue
        n = len(lst)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                new = lst[:i] + lst[i + size:]
                if len(new) < n:
                    yield {**sc, key: new}
            size //= 2
    # drop faults
    for key in keys:
        lst = sc.get(key)
        if isinstance(lst, list):
            for i, st in enumerate(lst):
                if isinstance(st, dict) and st.get("fault"):
                    yield {**sc, key: lst[:i] + [{k: v for k, v in st.items() if k != "fault"}] + lst[i + 1:]}
    # simplify mesh recipes anywhere
    yield from _simplify(sc, sc, ())


DROPPABLE = ("groups", "data", "pdata", "ghost", "ghost_then", "extra_user", "jit", "o", "relief", "tag")


def _simplify(root, node, path):
    if isinstance(node, dict):
        if node.get("$") == "mesh":
            for k in DROPPABLE:
                if node.get(k):
                    yield _replace(root, path, {a: b for a, b in node.items() if a != k})
            n = node.get("n")
            if isinstance(n, list) and any(x > 1 for x in n):
                yield _replace(root, path, {**node, "n": [max(1, x // 2) for x in n]})
                for i, x in enumerate(n):
                    if x > 1:
                        yield _replace(root, path, {**node, "n": n[:i] + [x - 1] + n[i + 1:]})
        for k, v in node.items():
            yield from _simplify(root, v, path + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            yield from _simplify(root, v, path + (i,))


def _replace(root, path, value):
    if not path:
        return value
    k = path[0]
    if isinstance(root, dict):
        return {**root, k: _replace(root[k], path[1:], value)}
    new = list(root)
    new[k] = _replace(root[k], path[1:], value)
    return new
