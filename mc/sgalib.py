"""Small SGA search problems, reference tree reader and reference evaluator."""
from __future__ import annotations

import numpy as np

from mc.core import quiet


def grid(axis, n):
    start, step = {"x": (-1.0, 0.5), "y": (-0.6, 0.3), "z": (0.0, 0.2), "t": (0.0, 0.25)}[axis]
    return start + step * np.arange(n)


def field(coords, order, which=0):
    """A smooth field that depends on every coordinate differently and takes the value 0."""
    mesh = np.meshgrid(*[coords[a] for a in order], indexing="ij")
    m = dict(zip(order, mesh))
    w = {"x": 1.0, "y": 1.7, "z": 0.6, "t": 2.3}
    s = sum(w[a] * m[a] for a in order)
    prod = np.ones_like(s)
    for a in order:
        prod = prod * (m[a] + (0.5 if a != "x" else 0.0))
    return s * s * 0.5 + prod - 0.5 * s if which == 0 else s + 2.0 * prod * prod + 1.0


def make_context(order=("x", "t"), lhs="t", sizes=None, fields=("u",), params=None, target=None,
                 **kw):
    from kd.model.sga.sgapde.config import SolverConfig
    from kd.model.sga.sgapde.context import ProblemContext
    sizes = sizes or {"x": 5, "y": 4, "z": 4, "t": 4}
    coords = {a: grid(a, sizes[a]) for a in order}
    fd = {f: field(coords, order, i) for i, f in enumerate(fields)}
    with quiet():
        cfg = SolverConfig(problem_name="mc", fields_data=fd, coords_1d=coords,
                           axis_order=list(order), target_field=target or fields[0], lhs_axis=lhs,
                           param_fields=params, **kw)
        return ProblemContext(cfg)


ARITY = {"+": 2, "-": 2, "*": 2, "/": 2, "d": 2, "d^2": 2, "^2": 1, "^3": 1}


class BadTree(Exception):
    pass


def read_tree(tree, levels=None):
    """Nested tuples (name, child...) of a Tree; raises BadTree when the levels are inconsistent."""
    levels = tree.tree if levels is None else levels
    if len(levels[0]) != 1:
        raise BadTree(f"{len(levels[0])} roots")
    used = [0] * len(levels)
    used[0] = 1

    def rec(d, i):
        n = levels[d][i]
        want = ARITY.get(n.name, 0)
        if int(n.child_num) != want:
            raise BadTree(f"node {n.name} has child count {n.child_num}")
        if want == 0:
            return (n.name,)
        if d + 1 >= len(levels):
            raise BadTree(f"operator {n.name} on the last level")
        st = n.child_st
        if st is None or st < 0 or st + want > len(levels[d + 1]):
            raise BadTree(f"children of {n.name} out of range")
        kids = []
        for j in range(want):
            used[d + 1] += 1
            kids.append(rec(d + 1, st + j))
            if levels[d + 1][st + j].parent_idx != i:
                raise BadTree(f"child of {n.name} names another parent")
        return (n.name, *kids)
    out = rec(0, 0)
    # every node of every level is the child of exactly one operator
    for d, lv in enumerate(levels):
        if used[d] != len(lv):
            raise BadTree(f"level {d}: {len(lv)} nodes, {used[d]} reached")
    return out


def preorder(e):
    return " ".join([e[0]] + [preorder(c) for c in e[1:]])


def inorder(e):
    if len(e) == 1:
        return e[0]
    if len(e) == 2:
        return f"( {e[0]} {inorder(e[1])})"
    return f"({inorder(e[1])} {e[0]} {inorder(e[2])})"


def squash(s):
    return "".join(s.split())


def deriv1(u, dx, axis):
    return np.gradient(u, dx, axis=axis, edge_order=2)


def deriv2(u, dx, axis):
    u = np.moveaxis(np.asarray(u, float), axis, 0)
    r = np.empty_like(u)
    r[1:-1] = (u[2:] - 2 * u[1:-1] + u[:-2]) / dx ** 2
    r[0] = (2 * u[0] - 5 * u[1] + 4 * u[2] - u[3]) / dx ** 2
    r[-1] = (2 * u[-1] - 5 * u[-2] + 4 * u[-3] - u[-4]) / dx ** 2
    return np.moveaxis(r, 0, axis)


class Discard(Exception):
    pass


def evaluate(e, leaves, axis_index, delta, lhs, guard=False):
    """Reference value of a term; Discard when the term must be dropped."""
    name = e[0]
    if len(e) == 1:
        return leaves[name]
    if name in ("d", "d^2"):
        a = evaluate(e[1], leaves, axis_index, delta, lhs, guard)
        ax = e[2][0]
        if ax == lhs:
            raise Discard("derivative along the target axis")
        f = deriv1 if name == "d" else deriv2
        return f(a, delta[ax], axis_index[ax])
    kids = [evaluate(c, leaves, axis_index, delta, lhs, guard) for c in e[1:]]
    with np.errstate(all="ignore"):
        if name == "+":
            return kids[0] + kids[1]
        if name == "-":
            return kids[0] - kids[1]
        if name == "*":
            return kids[0] * kids[1]
        if name == "^2":
            return kids[0] ** 2
        if name == "^3":
            return kids[0] ** 3
        if name == "/":
            d = np.array(kids[1], float)
            if np.all(np.abs(d) <= 1e-10):
                if guard:
                    raise Discard("zero divisor")
                d = d + 1e-6
            while np.any(d == 0):
                d = d + 1e-10
            return kids[0] / d
    raise KeyError(name)


def leaves_of(order, coords, fields, lhs, params=None):
    """Independent table of the terminals a context with this data must offer."""
    shape = tuple(len(coords[a]) for a in order)
    out = {"0": np.zeros(shape)}
    for f, v in fields.items():
        out[f] = np.asarray(v, float)
        for i, a in enumerate(order):
            if a != lhs:
                out[f"{f}_{a}"] = deriv1(np.asarray(v, float), coords[a][1] - coords[a][0], i)
    for i, a in enumerate(order):
        if a == lhs:
            continue
        r = [1] * len(order)
        r[i] = -1
        out[a] = np.broadcast_to(coords[a].reshape(r), shape)
    for p, v in (params or {}).items():
        out[p] = np.asarray(v, float)
    return out
