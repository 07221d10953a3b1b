"""C05: combining metadata policies along a chain only ever restricts (per claim, all metadata values)."""
from hypothesis import strategies as st

import policymodel as pm
from vf import Violation, attempt, require


def run(ctx):
    from fedservice.entity.function import PolicyError
    from fedservice.entity.function.policy import TrustChainPolicy
    policy = TrustChainPolicy(None)
    et = "openid_relying_party"

    def gather(levels, claim="x"):
        # the statements, trust anchor's first; a statement without a policy for the type in between
        chain = [{"iss": str(i), "sub": str(i + 1),
                  **({"metadata_policy": {et: {claim: dict(lv)}}} if lv is not None else {})}
                 for i, lv in enumerate(levels)]
        return attempt(policy.gather_policies, chain, et)

    def combine(case):
        levels = [lv for lv in case["levels"] if lv is not None]
        if len(levels) < 1:
            return
        out = gather(case["levels"])
        if not out.ok:
            require(isinstance(out.err, PolicyError), lambda: f"combining {levels} fails with {out}", "crash")
        try:
            model = pm.combine_all(levels)
        except pm.Fail as err:
            ctx.label("contradiction")
            ctx.nontriv()
            require(not out.ok, lambda: f"contradicting policies ({err}) combined: {levels} -> {out}",
                    "contradiction")
            return
        if not out.ok:
            require(model == pm.OPEN, lambda: f"compatible policies refused: {levels}: {out}", "refused")
            ctx.label("refused-open")
            return
        ctx.label("open" if model == pm.OPEN else "exact")
        if len(levels) > 1:
            ctx.nontriv()
        known = None
        supersets = [set(x["superset_of"]) for x in levels if "superset_of" in x]
        if len(supersets) < 2:
            supersets = None
        for v in pm.universe():
            md = {"other": "o"} if v == pm.ABSENT else {"x": v, "other": "o"}
            got = attempt(policy.apply_policy, dict(md), out.value)
            if not got.ok:
                require(isinstance(got.err, PolicyError), lambda: f"{levels} on {v}: {got}", "crash")
                if model != pm.OPEN:
                    try:
                        exp = pm.apply_claim(model, v)
                    except pm.Fail:
                        continue
                    raise Violation(f"{levels} on {v}: refused ({got.err}), expected {exp}", "apply-refused")
                continue
            res = got.value.get("x", pm.ABSENT)
            for i, lv in enumerate(levels):
                bad = pm.violated(lv, res)
                if bad == ["superset_of"] and supersets:
                    # listed finding: such lists are combined by intersection; nothing weaker than that
                    inter = set.intersection(*supersets)
                    require(inter and inter <= pm.as_set(res),
                            lambda: f"policies {levels} let {v} through as {res}", "loosened")
                    known = known or (v, res, i, lv)
                    continue
                require(not bad, lambda: f"policies {levels} let {v} through as {res}, which violates {bad} of "
                                         f"level {i} {lv}", "loosened")
            if model != pm.OPEN:
                try:
                    exp = pm.apply_claim(model, v)
                except pm.Fail as err:
                    raise Violation(f"{levels} on {v}: got {res}, expected refusal ({err})", "apply-accepted")
                require(pm.same(res, exp), lambda: f"{levels} on {v}: got {res}, expected {exp}", "apply-value")
        if known:
            raise Violation(f"policies {levels} let {known[0]} through as {known[1]}, although level {known[2]} "
                            f"demands {known[3]}", "superset-loosened")

    def several(case):
        """Claims do not influence each other; a statement without policies changes nothing"""
        claims = case["claims"]
        n = max(len(c) for c in claims)
        chain = []
        for i in range(n):
            pol = {f"c{j}": dict(c[i]) for j, c in enumerate(claims) if i < len(c)}
            chain.append({"iss": str(i), "sub": str(i + 1), "metadata_policy": {et: pol} if pol else {}})
            if case["gap"] == i:
                chain.append({"iss": "g", "sub": "h", **case["gapstmt"]})
        out = attempt(policy.gather_policies, chain, et)
        single = [gather(c[:n], f"c{j}") for j, c in enumerate(claims)]
        require(out.ok == all(s.ok for s in single),
                lambda: f"combined: {out}, claim by claim: {single}", "claims-interact")
        ctx.label("ok" if out.ok else "refused")
        ctx.nontriv()
        if not out.ok:
            return
        for j, (c, s) in enumerate(zip(claims, single)):
            for v in pm.universe():
                md = {} if v == pm.ABSENT else {f"c{j}": v}
                pol = {"metadata_policy": {f"c{j}": out.value["metadata_policy"].get(f"c{j}", {})}}
                a = attempt(policy.apply_policy, dict(md), pol)
                b = attempt(policy.apply_policy, dict(md), s.value)
                require(a.ok == b.ok and (not a.ok or pm.same(a.value.get(f"c{j}"), b.value.get(f"c{j}"))),
                        lambda: f"claim c{j} with {v}: {a} together, {b} alone", "claims-interact")

    @st.composite
    def one(draw):
        if draw(st.integers(0, 7)) == 0:    # one operator, whatever values
            n = draw(st.sampled_from(["value", "value", "default", "one_of", "subset_of", "add"]))
            listy = n in ("one_of", "subset_of", "add") or draw(st.integers(0, 3)) == 0
            return {"levels": [{n: sorted(pm.sub(draw, draw(st.permutations(pm.V)))) if listy else draw(st.sampled_from(pm.V))}
                               for _ in range(draw(st.integers(2, 3)))]}
        lv = draw(pm.levels())
        if draw(st.integers(0, 4)) == 0:
            lv.insert(draw(st.integers(0, len(lv))), None)
        return {"levels": lv}

    @st.composite
    def many(draw):
        return {"claims": [draw(pm.levels(1, 3)) for _ in range(draw(st.integers(2, 3)))],
                "gap": draw(st.integers(-1, 3)),
                "gapstmt": draw(st.sampled_from([{}, {"metadata_policy": {}}, {"metadata": {}},
                                                 {"metadata_policy": {"oauth_client": {"c0": {"value": "zz"}}}},
                                                 {"metadata": {"openid_provider": {"c0": "zz"}}}]))}

    ctx.prop("combine", one(), combine, 3000,
             rule="one claim, 2-4 statements with policies drawn around a common target (plus contradicting "
                  "noise), the combination judged on every value of a 20-value universe; non-trivial = at "
                  "least two statements and combined, or contradicting")
    ctx.prop("several", many(), several, 400,
             rule="2-3 claims at once compared with one claim at a time; every case counts as non-trivial")
    ctx.assumptions += ["single statements carry policies that are consistent in themselves",
                        "claim values are strings or lists of strings"]
