"""The simulator's choices for the resolver's work list (see svdsuite/resolve/agenda.py).

plan = {"seed": int, "perm": 0/1, "ext": 0/1, "trunc": probability, "until": number of choice points steered}
Every choice is a pure function of (plan seed, number of the choice point), so cutting `until` shrinks a schedule."""
from sim.rng import Rng, derive


class Plan:
    def __init__(self, plan):
        self.p = plan
        self.n = 0
        self.rounds = 0
        self.moved = 0
        self.sig = []

    def _rng(self):
        self.n += 1
        if self.n > self.p.get("until", 1 << 30):
            return None
        return Rng(self.p["seed"], "agenda", self.n)

    def order_placeholders(self, items):
        r = self._rng()
        if r is None or not self.p.get("perm") or len(items) < 2:
            return items
        out = r.shuffle(list(items))
        self.moved += out != items
        return out

    def order_key(self, key):
        r = self._rng()
        if r is None or not self.p.get("ext"):
            return key
        self.moved += 1
        n = self.n

        # rustworkx asks for the keys in an order that differs from process to process: the key must not depend on it
        # (equal keys are ordered by the position of the node in the graph)
        def k(node):
            return "%016x" % derive(self.p["seed"], n, getattr(node, "name", ""), getattr(node, "level", ""), key(node))
        return k

    def limit_round(self, items):
        r = self._rng()
        self.rounds += 1
        if r is None or not self.p.get("trunc") or len(items) < 2 or not r.p(self.p["trunc"]):
            self.sig.append(len(items))
            return items
        self.moved += 1
        k = 1 + r.below(len(items))
        self.sig.append(k)
        return items[:k]


def draw(rng):
    """agenda plan of a run; a third of the runs keeps the order of the code"""
    if rng.p(0.3):
        return None
    return {"seed": rng.below(1 << 30), "perm": int(rng.p(0.8)), "ext": int(rng.p(0.8)),
            "trunc": rng.pick([0, 0, 0.3, 0.9])}


def shrink(plan):
    if plan is None:
        return
    yield None
    for k in ("trunc", "perm", "ext"):
        if plan.get(k):
            yield {**plan, k: 0}
    u = plan.get("until")
    if u is None:
        yield {**plan, "until": 64}
    elif u > 0:
        yield {**plan, "until": u // 2}
        yield {**plan, "until": u - 1}


class use:
    def __init__(self, plan):
        self.plan = Plan(plan) if plan else None

    def __enter__(self):
        from sim import env
        env.repo_agenda.install(self.plan)
        return self.plan

    def __exit__(self, *a):
        from sim import env
        env.repo_agenda.install(None)
        return False
