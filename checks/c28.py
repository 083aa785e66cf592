"""C28: priority memories keep exactly the best distinct items."""
import itertools
from types import SimpleNamespace

import numpy as np

from mc.explore import sequences

ITEMS = "abcd"


def data(item, score, length=1):
    """A one-sample batch whose every part identifies its item."""
    from kd.model.discover.dso.memory import Batch
    k = ord(item[0])
    return Batch(actions=np.array([k, k + 1]), obs=np.array([[k * 1.0, k]]), priors=np.array([[k * 2.0, k]]),
                 lengths=length, rewards=score, on_policy=bool(k % 2))


def batch_of(items):
    from kd.model.discover.dso.memory import Batch
    ss = [data(*i) for i in items]
    return Batch(actions=np.stack([s.actions for s in ss]), obs=np.stack([s.obs for s in ss]),
                 priors=np.stack([s.priors for s in ss]), lengths=np.array([s.lengths for s in ss]),
                 rewards=np.array([float(s.rewards) for s in ss]), on_policy=np.array([s.on_policy for s in ss]))


def prog(item):
    return SimpleNamespace(str=item)


class PriorityModel:
    """Reference: a set of (item, score) pairs; ties among the lowest are left open."""

    def __init__(self, cap):
        self.cap, self.states = cap, {frozenset()}

    def push(self, item, score):
        nxt = set()
        for s in self.states:
            if any(i == item for i, _ in s):
                nxt.add(s)
                continue
            t = s | {(item, score)}
            if len(t) <= self.cap:
                nxt.add(t)
            else:
                low = min(x for _, x in t)
                nxt |= {t - {p} for p in t if p[1] == low}
        self.states = nxt

    def observe(self, held):
        """Keep the states that agree with what the memory holds."""
        self.states = {s for s in self.states if s == held}
        return bool(self.states)

    def popped(self, got):
        nxt = set()
        for s in self.states:
            if not s:
                if got == ():
                    nxt.add(s)
                continue
            low = min(x for _, x in s)
            if got != () and (got[1], got[0]) in s and got[0] == low:
                nxt.add(s - {(got[1], got[0])})
        self.states = nxt
        return bool(nxt)


def held_of(q):
    return [(c.item, float(c.score)) for c in q.heap] if hasattr(q, "heap") else [(i, None) for i in q]


def look(ck, q, model, key, rep, pairs):
    """Every way of reading the memory agrees with the model state."""
    in_order = [(i, float(d.rewards)) for i, d in q.iter_in_order()]
    items = list(q)
    ck.expect(len(items) == len(set(items)), key + ":duplicate", f"{rep}: {items}", rep)
    ck.expect(len(q) == len(items) <= q.capacity, key + ":capacity", f"{rep}: {items}", rep)
    ck.expect(sorted(items) == sorted(i for i, _ in in_order), key + ":iteration", f"{rep}: {items} / {in_order}", rep)
    sc = [s for _, s in in_order]
    ck.expect(sc == sorted(sc, reverse=True), key + ":order", f"{rep}: {in_order}", rep)
    ck.expect(all((i, s) in pairs for i, s in in_order), key + ":foreign", f"{rep}: {in_order}", rep)
    ok = ck.expect(model.observe(frozenset(in_order)), key + ":contents",
                   f"{rep}: holds {in_order}, expected one of {[sorted(s) for s in model.states][:3]}", rep)
    mx, mn = q.get_max(), q.get_min()
    if in_order:
        ck.expect(mx[0] == sc[0] and (mx[1], mx[0]) in set(in_order), key + ":max", f"{rep}: {mx[:2]} of {in_order}", rep)
        ck.expect(mn[0] == sc[-1] and (mn[1], mn[0]) in set(in_order), key + ":min", f"{rep}: {mn[:2]} of {in_order}", rep)
        own(ck, q, key, rep, dict(in_order))
    else:
        ck.expect(mx == () and mn == (), key + ":empty", rep, rep)
    return ok


def own(ck, q, key, rep, scores):
    """The batch, the rewards and random draws give every item with its own data."""
    b = q.to_batch()
    items = list(q)
    for j, i in enumerate(items):
        want = data(i, scores[i]) if scores else None
        k = ord(i[0])
        ck.expect(list(np.asarray(b.actions[j])) == [k, k + 1] and float(b.obs[j][0][0]) == k
                  and float(b.priors[j][0][0]) == 2 * k and bool(b.on_policy[j]) == bool(k % 2)
                  and (want is None or abs(float(b.rewards[j]) - want.rewards) < 1e-6),
                  key + ":batch", f"{rep}: {i}", rep)
    if scores:
        ck.expect([float(r) for r in q.get_rewards()] == [scores[i] for i in items], key + ":rewards", rep, rep)
    for i, d in q.random_sample(4):
        ck.expect(i in items and d.actions[0] == ord(i[0]), key + ":sample", f"{rep}: {i} not in {items}", rep)
    sb = q.sample_batch(3)
    ck.expect(len(sb.actions) == 3 and all(any(a[0] == ord(i[0]) and bool(p) == bool(ord(i[0]) % 2)
                                               and abs(float(o[0][0]) - ord(i[0])) < 1e-6 for i in items)
                                           for a, p, o in zip(np.asarray(sb.actions), np.asarray(sb.on_policy), np.asarray(sb.obs))),
              key + ":sample-batch", rep, rep)


def priority(ck, item):
    from kd.model.discover.dso.memory import make_queue
    mode, cap, first, depth = item
    fixed = dict(zip(ITEMS, (1.0, 2.0, 2.0, -3.0)))
    if mode == "fixed":
        ops = [("push", i, fixed[i]) for i in ITEMS] + [("pop",)]
    else:
        ops = [("push", i, s) for i in "abc" for s in (-1.0, 0.0, 2.5)] + [("pop",)]
    for tail in itertools.product(ops, repeat=depth - 1):
        seq = (first, *tail)
        q = make_queue(priority=True, capacity=cap, seed=0)
        m = PriorityModel(cap)
        key = f"priority[{mode}]"
        offered = set()
        with ck.case(key, {"capacity": cap, "ops": seq}, timeout=None):
            for n, op in enumerate(seq):
                rep = {"capacity": cap, "ops": seq[:n + 1]}
                ck.step()
                if op[0] == "push":
                    q.push(op[2], op[1], data(op[1], op[2]))
                    offered.add((op[1], op[2]))
                    m.push(op[1], op[2])
                else:
                    got = q.pop()
                    ck.expect(m.popped(got[:2]), key + ":pop", f"{rep}: {got[:2]}", rep)
                if ck.visit((mode, cap, seq[:n + 1])):
                    if not look(ck, q, m, key, rep, offered):
                        break
                elif not m.observe(frozenset((i, float(d.rewards)) for i, d in q.iter_in_order())):
                    break
            else:
                if mode == "fixed" and ("pop",) not in seq:
                    best = sorted((s for _, s in offered), reverse=True)[:int(min(cap, 99))]
                    have = sorted((float(d.rewards) for _, d in q.iter_in_order()), reverse=True)
                    ck.expect(best == have, key + ":best", f"{rep}: scores {have}, best offered {best}", rep)
                ck.trace()
    ck.sample({"capacity": cap, "mode": mode, "ops": seq})


def batches(ck, item):
    """push_batch / push_best / push_sample are pushes of the right items."""
    from kd.model.discover.dso.memory import make_queue, get_samples
    cap, prio = item
    scores = dict(zip(ITEMS, (0.5, 0.75, 0.75, -0.25)))
    words = [w for m in (1, 2, 3) for w in itertools.product(ITEMS, repeat=m)]
    ops = [("batch", w) for w in words] + [("best", w) for w in words]
    for seq in itertools.chain([(o,) for o in ops], itertools.product(ops, ops[::5] + ops[1::7])):
        q = make_queue(priority=prio, capacity=cap, seed=3)
        m, f = PriorityModel(cap), []
        key = f"batches[{'priority' if prio else 'fifo'}]"
        rep = {"capacity": cap, "ops": seq}
        ck.visit(("batches", cap, prio, seq))
        offered = set()
        with ck.case(key, rep, timeout=None):
            for kind, w in seq:
                b = batch_of([(i, scores[i]) for i in w])
                progs = [prog(i) for i in w]
                before = [np.array(x, copy=True) for x in b]
                if kind == "batch":
                    q.push_batch(b, progs)
                    push = list(w)
                else:
                    q.push_best(b, progs)
                    push = None
                    top = max(scores[i] for i in w)
                ck.step()
                ck.expect(all(np.array_equal(x, y) for x, y in zip(before, b)), key + ":batch-changed", rep, rep)
                if push is None:
                    cands = [i for i in dict.fromkeys(w) if scores[i] == top]
                    if len(cands) > 1:      # any of the equally good ones
                        inq = [i for i in list(q)]
                        push = [i for i in cands if i in inq][:1] or cands[:1]
                        push = [w[[scores[i] for i in w].index(top)]]
                    else:
                        push = cands
                for i in push:
                    offered.add((i, scores[i]))
                    m.push(i, scores[i])
                    if i in f:
                        f.remove(i)
                    elif len(f) >= cap:
                        f.pop(0)
                    f.append(i)
                if prio:
                    if not look(ck, q, m, key, rep, offered):
                        break
                else:
                    if not fifo_look(ck, q, f, key, rep):
                        break
            ck.trace()


def fifo_look(ck, q, f, key, rep):
    ok = ck.expect(list(q) == f and len(q) == len(f), key + ":contents", f"{rep}: holds {list(q)}, expected {f}", rep)
    if f and ok:
        own(ck, q, key, rep, None)
    return ok


def fifo(ck, item):
    from kd.model.discover.dso.memory import make_queue
    cap, depth = item
    ops = [("push", i) for i in ITEMS] + [("pop",)]
    for seq in itertools.product(ops, repeat=depth):
        q, f = make_queue(priority=False, capacity=cap, seed=1), []
        key = "fifo"
        with ck.case(key, {"capacity": cap, "ops": seq}, timeout=None):
            for n, op in enumerate(seq):
                rep = {"capacity": cap, "ops": seq[:n + 1]}
                ck.step()
                if op[0] == "push":
                    q.push(1.0, op[1], data(op[1], 1.0))
                    if op[1] in f:
                        f.remove(op[1])
                    elif len(f) >= cap:
                        f.pop(0)
                    f.append(op[1])
                else:
                    got = q.pop()
                    want = f.pop(0) if f else None
                    ck.expect((got == () and want is None) or (want is not None and got[1] == want), key + ":pop",
                              f"{rep}: {got}", rep)
                if ck.visit(("fifo", cap, seq[:n + 1])):
                    if not fifo_look(ck, q, f, key, rep):
                        break
            ck.trace()


def same_reward(ck, item):
    """With the 'drop equal rewards' option on, the memory is still a bounded duplicate-free priority memory."""
    from kd.model.discover.dso.memory import make_queue
    cap, depth = item
    kinds = [("a", 1.0, 3), ("b", 1.0, 2), ("c", 1.000004, 1), ("d", 2.0, 2), ("e", 0.5, 2), ("f", 2.0, 1)]
    for seq in itertools.product(kinds, repeat=depth):
        q = make_queue(priority=True, capacity=cap, remove_same=True)
        key = "same-reward"
        rep = {"capacity": cap, "ops": seq}
        ck.visit(("same", cap, seq))
        with ck.case(key, rep, timeout=None):
            for i, s, n in seq:
                ck.step()
                before = {x: (float(d.rewards), d.lengths) for x, d in q.iter_in_order()}
                q.push_sample(data(i, s, n), prog(i))
                now = {x: (float(d.rewards), d.lengths) for x, d in q.iter_in_order()}
                ck.expect(len(list(q)) == len(set(q)) <= cap and set(q) == set(now), key + ":capacity", f"{rep}: {list(q)}", rep)
                ck.expect(set(now) - set(before) <= {i}, key + ":foreign", f"{rep}: {before} -> {now}", rep)
                equal = [v for v in before.values() if abs(v[0] - s) < 1e-5]
                if i in before or (len(equal) == 1 and equal[0][1] < n):
                    ck.expect(now == before, key + ":longer-kept", f"{rep}: {before} -> {now}", rep)
                elif not equal:
                    best = sorted([v[0] for v in before.values()] + [s], reverse=True)[:cap]
                    ck.expect(sorted((v[0] for v in now.values()), reverse=True) == best, key + ":best",
                              f"{rep}: {before} -> {now}", rep)
                mn = q.get_min()
                ck.expect(mn[0] == min(v[0] for v in now.values()), key + ":min", rep, rep)
            drained = []
            while len(q):
                drained.append(float(q.pop()[0]))
            ck.expect(drained == sorted(drained), key + ":pop-order", f"{rep}: popped {drained}", rep)
            # what was popped can come back
            for i, s, n in kinds[:cap]:
                q.push_sample(data(i, s, n), prog(i))
            ck.expect(len(q) >= 1, key + ":after-drain", rep, rep)
            ck.trace()


def run(ck):
    import kd.model.discover.dso.memory  # noqa: F401
    T = ck.thorough
    jobs = []
    fixed = dict(zip(ITEMS, (1.0, 2.0, 2.0, -3.0)))
    for cap in (1, 2, 3, np.inf):
        for f in [("push", i, fixed[i]) for i in ITEMS] + [("pop",)]:
            jobs.append((priority, ("fixed", cap, f, 7 if T else 6)))
        for f in [("push", i, s) for i in "abc" for s in (-1.0, 0.0, 2.5)] + [("pop",)]:
            jobs.append((priority, ("free", cap, f, 5 if T else 4)))
        jobs.append((fifo, (cap, 7 if T else 6)))
        jobs.append((batches, (cap, True)))
        jobs.append((batches, (cap, False)))
        if cap < 4:
            jobs.append((same_reward, (cap, 6 if T else 5)))
    jobs.sort(key=lambda j: str(j[0]))
    ck.part("memory")
    ck.pool(lambda c, j: j[0](c, j[1]), jobs)
    ck.end_part()
    ck.notes["bounds"] = "all operation sequences: 4 items, depth 6 (7 thorough), capacities 1-3 and unlimited; " \
        "3 items with free scores, depth 4 (5); batches of 1-3 programs"
