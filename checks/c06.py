"""C06: applying one metadata policy gives exactly the policy-conformant metadata, or an error."""
import copy

from hypothesis import strategies as st

import policymodel as pm
from vf import Violation, attempt, require

CLAIMS = ["c0", "c1", "c2", "c3"]


def run(ctx):
    from fedservice.entity.function import PolicyError
    from fedservice.entity.function.policy import TrustChainPolicy
    policy = TrustChainPolicy(None)

    def apply(case):
        md, pol, sup = case["metadata"], case["policy"], case["superior"]
        rule = {"metadata_policy": copy.deepcopy(pol), "metadata": copy.deepcopy(sup)}
        given = copy.deepcopy(md)
        out = attempt(policy.apply_policy, given, rule)
        require(given == md, lambda: f"the metadata given was changed: {md} -> {given}", "mutated-metadata")
        require(rule == {"metadata_policy": pol, "metadata": sup},
                lambda: f"the policy was changed: {pol} {sup} -> {rule}", "mutated-policy")
        exp, why = {**md, **sup}, None
        for c, ops in pol.items():
            try:
                v = pm.apply_claim(ops, exp.get(c, pm.ABSENT))
            except pm.Fail as err:
                why = f"{c}: {err}"
                break
            if v != pm.ABSENT:
                exp[c] = v
        if set(pol) & set({**md, **sup}):
            ctx.nontriv()
        if why:
            ctx.label("refused")
            require(not out.ok, lambda: f"{md} with policy {pol} accepted ({why} not met): {out}", "accepted")
            require(isinstance(out.err, PolicyError), lambda: f"{md} with policy {pol}: {out}", "crash")
            return
        ctx.label("applied")
        require(out.ok, lambda: f"{md} with policy {pol} and superior metadata {sup} fails with {out}, expected {exp}", "refused")
        got = out.value
        require(set(got) == set(exp) and all(pm.same(got[c], exp[c]) for c in exp),
                lambda: f"{md} with policy {pol} and superior metadata {sup}: {got}, expected {exp}", "wrong")
        for c in exp:
            require(not isinstance(got[c], list) or got[c] in (md.get(c), sup.get(c)) or len(got[c]) == len(set(got[c])),
                    lambda: f"duplicates in {c}: {got}", "wrong")
        again = attempt(policy.apply_policy, copy.deepcopy(got), copy.deepcopy(rule))
        require(again.ok and set(again.value) == set(got) and all(pm.same(again.value[c], got[c]) for c in got),
                lambda: f"applying the same policy twice: {got} -> {again}", "not-idempotent")

    values = st.one_of(st.sampled_from(pm.V), st.lists(st.sampled_from(pm.V), min_size=1, max_size=4, unique=True))

    @st.composite
    def cases(draw):
        pol, md, sup = {}, {}, {}
        for c in CLAIMS:
            k = draw(st.integers(0, 6))
            if k == 6:    # present, if only just
                pol[c] = {"default": draw(st.sampled_from([True, 5, "a", ["a"]]))}
                if draw(st.booleans()):
                    pol[c]["essential"] = draw(st.booleans())
                if draw(st.integers(0, 3)):
                    (sup if draw(st.integers(0, 3)) == 0 else md)[c] = draw(st.sampled_from([False, 0, "", []]))
            elif k < 4:
                listy = draw(st.booleans())
                target = pm.sub(draw, draw(st.permutations(pm.V)))[:3] if listy else [draw(st.sampled_from(pm.V))]
                pol[c] = draw(pm.level(target, listy))
                m = draw(st.integers(0, 5))
                if m < 4:
                    if draw(st.integers(0, 5)) == 0:
                        md[c] = draw(values)
                    elif listy:
                        md[c] = sorted(set(target) | set(pm.sub(draw, pm.V, 0)))
                    else:
                        md[c] = target[0]
                    if m == 3 and "value" not in pol[c]:
                        sup[c] = draw(values)
            elif k == 4:
                md[c] = draw(values)
            else:
                md[c] = draw(st.sampled_from(["x", ["x", "y"], {"k": ["v"]}, 7, True, [{"k": "v"}]]))
        return {"metadata": md, "policy": pol, "superior": sup}

    ctx.prop("apply", cases(), apply, 2500,
             rule="metadata of up to 4 claims, a consistent policy for most of them, sometimes metadata set by a "
                  "superior; non-trivial = a policy concerns a claim that is present")
    ctx.assumptions += ["the policy is consistent in itself", "claims with a policy are strings or lists of strings"]
