"""C01: a trust chain is accepted exactly when the independent reference verifier accepts it, and what is
then reported about it is what the signed statements say."""
import copy

from chainspec import *
from fedlib import EC, NOW, entity, jwks, payload_of, world
from vf import Violation, attempt, require
import json

EV = IDS[2]


def judge(ctx, fe, tokens, specs_muts=()):
    verdict, info = ref_verify(tokens, all_anchor_keys())
    before = list(tokens)
    out = attempt(fe.function.verifier, tokens)
    got = out.value if out.ok else None
    ctx.label(f"ref-{verdict}" + (f"-{info}" if verdict == "reject" else ""))
    require(tokens == before, "verification changed the caller's chain", "input-mutated")
    if verdict == "reject":
        require(not got, lambda: f"chain accepted although the reference rejects it ({info}); "
                                 f"muts={list(specs_muts)}", f"accepted-{info}")
        return verdict
    if verdict == "accept":
        require(got, lambda: f"valid chain not accepted: {out}", "rejected-valid")
    if got:
        require(got.anchor == info[0]["iss"], f"anchor {got.anchor} but the chain starts at {info[0]['iss']}",
                "anchor")
        require(got.iss_path == [p["iss"] for p in info][::-1], f"iss_path {got.iss_path}", "iss_path")
        require(got.exp == min(p["exp"] for p in info), f"exp {got.exp}", "exp")
        require(not got.is_expired(), "accepted chain is expired", "expired")
        vc = [dict(x) for x in got.verified_chain]
        require(vc == info, lambda: f"verified statements differ from the signed ones: {vc} vs {info}",
                "verified_chain")
        require(list(got.chain) == before, "chain attribute is not the verified chain", "chain")
        require(not got.err, f"accepted with errors {got.err}", "err")
    return verdict


def run(ctx):
    ctx.assumptions += ["cryptojwt's signature primitives are correct",
                        "the reference verifier in lib/chainspec.py states the intended acceptance rule"]

    def chains(case):
        with world(handler):
            fe = evaluator()
            tokens = build(case["specs"])
            v = judge(ctx, fe, tokens, case["muts"])
            if len(case["specs"]) > 1:
                ctx.nontriv(case["specs"])
            for m in case["muts"]:
                ctx.label(f"mut-{m}")
            # and the same through the list interface: the verdict on one chain is independent of the others
            from fedservice.entity.function import verify_trust_chain
            fe2 = evaluator()
            out = attempt(verify_trust_chain, fe2, build(case["specs"]))
            require(bool(out.ok and out.value) == bool(v == "accept") or v == "open",
                    f"verify_trust_chain: {out} but reference says {v}", "verify_trust_chain")

    ctx.prop("chains", chain_case(), chains, 1500,
             rule="chain of >=2 statements, distinct specification (issuer/subject/signing key/listed keys/expiry/tampering per statement)")

    def batch(case):
        """a list of chains: exactly the valid ones survive, whatever else is in the list"""
        from fedservice.entity.function import verify_trust_chains
        with world(handler):
            chs = [build(c["specs"]) for c in case]
            want, open_ = [], []
            for t in chs:
                v, why = ref_verify(t, all_anchor_keys())
                if v == "accept":
                    want.append(t)
                elif v == "open" or why == "tail":
                    open_.append(t)
            fe = evaluator()
            out = attempt(verify_trust_chains, fe, [list(t) for t in chs])
            require(out.ok, f"one bad chain makes verification of the whole list fail: {out}", "batch-raise")
            got = [list(t.chain) for t in out.value]
            require([g for g in got if g not in open_] == want,
                    lambda: f"{len(got)} chains accepted, reference accepts {len(want)} of {len(chs)}",
                    "batch")
            if 0 < len(want) < len(chs):
                ctx.nontriv([c["specs"] for c in case])
            ctx.label(f"valid-{len(want)}-of-{len(chs)}")

    ctx.prop("batch", st.lists(chain_case(starts=(0, 0, 1)), min_size=2, max_size=4), batch, 300,
             rule="list with at least one valid and at least one invalid chain")
