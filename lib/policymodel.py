"""Reference model of metadata policies (independent of fedservice's policy code) and generators."""
from hypothesis import strategies as st

from vf import canon

ABSENT = "__absent__"
V = ["a", "b", "ab", "a b"]


class Fail(Exception):
    pass


def as_set(v):
    return set(v) if isinstance(v, (list, set, tuple)) else {v}


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return {canon(x) for x in a} == {canon(x) for x in b}
    return type(a) is type(b) and a == b


def violated(ops, v):
    """Operators in `ops` that the final value v (or ABSENT) of the claim does not satisfy"""
    bad = []
    here = v is not ABSENT and v != ABSENT
    if "value" in ops and not (here and same(v, ops["value"])):
        bad.append("value")
    if "add" in ops and not (here and as_set(ops["add"]) <= as_set(v)):
        bad.append("add")
    if here and "one_of" in ops and (isinstance(v, list) or v not in ops["one_of"]):
        bad.append("one_of")
    if here and "subset_of" in ops and not as_set(v) <= set(ops["subset_of"]):
        bad.append("subset_of")
    if here and "superset_of" in ops and not as_set(v) >= set(ops["superset_of"]):
        bad.append("superset_of")
    if ops.get("essential") and not here:
        bad.append("essential")
    return bad


def normalise(ops):
    """Drop operators until one statement's policy for a claim is consistent in itself"""
    ops = dict(ops)
    if "one_of" in ops:
        for o in ("subset_of", "superset_of", "add"):
            ops.pop(o, None)
        for o in ("value", "default"):
            if o in ops and (isinstance(ops[o], list) or ops[o] not in ops["one_of"]):
                ops.pop(o)
    if "subset_of" in ops:
        for o in ("superset_of", "add", "value", "default"):
            if o in ops and not as_set(ops[o]) <= set(ops["subset_of"]):
                ops.pop(o)
    for o in ("value", "default"):
        for p in ("superset_of", "add"):
            if o in ops and p in ops and not as_set(ops[o]) >= as_set(ops[p]):
                if o == "default" and p == "add":
                    continue
                ops.pop(o)
    if "value" in ops and "add" in ops and not isinstance(ops["value"], list):
        ops.pop("add")
    if "value" in ops and "default" in ops:
        ops.pop("default")
    return ops


def apply_claim(ops, v):
    """-> new value or ABSENT; raises Fail"""
    if "value" in ops:
        return ops["value"]
    if "add" in ops:
        if v == ABSENT:
            v = ops["add"]
        else:
            v = sorted(as_set(v) | as_set(ops["add"]))
    if v == ABSENT and "default" in ops:
        v = ops["default"]
    if v != ABSENT:
        if "one_of" in ops and (isinstance(v, list) or v not in ops["one_of"]):
            raise Fail("one_of")
        if "subset_of" in ops:
            if isinstance(v, list):
                v = [x for x in v if x in ops["subset_of"]]
                if not v:
                    raise Fail("subset_of")
            elif v not in ops["subset_of"]:
                raise Fail("subset_of")
        if "superset_of" in ops and not as_set(v) >= set(ops["superset_of"]):
            raise Fail("superset_of")
    elif ops.get("essential"):
        raise Fail("essential")
    return v


OPEN = "open"


def combine2(sup, child):
    """Combined rule, Fail raised when the two contradict each other, or OPEN where the documented rules
    leave it to the implementation (then only the restrict-only relation is demanded)."""
    if "value" in sup:
        rest = set(child) - {"essential"}
        if not rest:
            return {**sup, **child}
        if "value" in child:
            if not same(sup["value"], child["value"]):
                raise Fail("value")
            return sup if set(child) == {"value"} else OPEN
        return OPEN
    if sup.get("essential") and child.get("essential") is False:
        raise Fail("essential")
    rule = {}
    for o in set(sup) | set(child):
        if o in sup and o in child:
            a, b = sup[o], child[o]
            if o in ("subset_of", "one_of"):
                rule[o] = [x for x in a if x in b]
                if not rule[o]:
                    raise Fail(o)
            elif o == "superset_of":
                if set(a) != set(b):
                    return OPEN
                rule[o] = a
            elif o == "add":
                rule[o] = sorted(as_set(a) | as_set(b))
            elif o in ("default", "value"):
                if not same(a, b):
                    raise Fail(o)
                rule[o] = a
            else:
                rule[o] = a or b
        else:
            rule[o] = sup.get(o, child.get(o))
    if "one_of" in rule and ("subset_of" in rule or "superset_of" in rule or "add" in rule):
        return OPEN
    clash = contradictions(rule)
    if clash:
        raise Fail(clash)
    if "value" in rule:
        for o in ("one_of", "subset_of", "superset_of", "add"):
            if o in rule and violated({o: rule[o]}, rule["value"]):
                return OPEN
        if "default" in rule:
            return OPEN
    if normalise(rule) != rule:
        return OPEN
    if set(rule) >= {"superset_of", "add"} and not as_set(rule["add"]) >= set(rule["superset_of"]):
        return OPEN
    return rule


def contradictions(rule):
    """operators that the specification does not allow together with these values"""
    res = []
    for a, b in (("add", "subset_of"), ("default", "subset_of"), ("superset_of", "subset_of"), ("superset_of", "default")):
        if a in rule and b in rule and not as_set(rule[a]) <= as_set(rule[b]):
            res.append((a, b))
    if "default" in rule and "one_of" in rule and not isinstance(rule["default"], list) and rule["default"] not in rule["one_of"]:
        res.append(("default", "one_of"))
    return res


def combine_all(levels):
    rule = levels[0]
    for lv in levels[1:]:
        rule = combine2(rule, lv)
        if rule == OPEN:
            return OPEN
    return rule


# --- generators --------------------------------------------------------------------------------
def sub(draw, base, lo=1):
    r = [x for x in base if draw(st.booleans())]
    return r if len(r) >= lo else list(base[:max(lo, 1)])


@st.composite
def level(draw, target, listy):
    """One statement's policy for a claim, biased towards letting `target` through"""
    ops = {}
    noise = draw(st.sampled_from([0] * 6 + [1, 2]))
    tgt = (list(target) if noise == 2 and listy else []) + [draw(st.sampled_from(V))] if noise else target
    names = draw(st.lists(st.sampled_from(
        ["subset_of", "superset_of", "add", "default", "essential", "value", "subset_of"] if listy else
        ["one_of", "one_of", "default", "essential", "value", "subset_of"]), max_size=3, min_size=1, unique=True))
    for n in names:
        if n in ("subset_of", "one_of"):
            ops[n] = sorted(set(tgt) | set(sub(draw, V, 0) if draw(st.booleans()) else []))
        elif n in ("superset_of", "add"):
            ops[n] = sub(draw, tgt)
        elif n in ("default", "value"):
            ops[n] = list(dict.fromkeys(tgt)) if listy else tgt[0]
        else:
            ops[n] = draw(st.booleans()) if noise else draw(st.sampled_from([True, True, False]))
    return normalise(ops)


@st.composite
def levels(draw, lo=2, hi=4):
    listy = draw(st.booleans())
    target = sub(draw, draw(st.permutations(V)))[:3] if listy else [draw(st.sampled_from(V))]
    return [draw(level(target, listy)) for _ in range(draw(st.integers(lo, hi)))]


def universe():
    res = [ABSENT] + list(V)
    for m in range(1, 16):
        res.append([V[i] for i in range(4) if m >> i & 1])
    return res


def resolve_model(stmts, leaf):
    """stmts: payloads TA first. -> {type: expected or OPEN}, or None when the chain has to be refused"""
    res = {}
    for et, md in leaf.items():
        sup, opened = {}, False
        pols = [s.get("metadata_policy", {}).get(et, {}) for s in stmts]
        mets = [s.get("metadata", {}).get(et, {}) for s in stmts]
        for i, (m, p) in enumerate(zip(mets, pols)):
            if set(m) & set(p):
                if i:
                    return None
                opened = True
            for c, v in m.items():
                if c in sup and not same(sup[c], v):
                    return None
                if c in sup and sup[c] != v:  # same values in another order
                    opened = True
                sup[c] = v
        exp = {**md, **sup}
        for c in {c for p in pols for c in p}:
            levels = [p[c] for p in pols if p.get(c)]
            if not levels:
                continue
            try:
                rule = combine_all(levels)
                if rule == OPEN or c in sup:
                    opened = True
                    continue
                v = apply_claim(rule, exp.get(c, ABSENT))
            except Fail:
                return None
            if v != ABSENT:
                exp[c] = v
        res[et] = OPEN if opened else exp
    return res
