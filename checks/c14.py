"""C14: the trust mark databases answer like the list of everything that was added to them."""
import copy
import json
import os
import tempfile

from hypothesis import strategies as st

from gen import weighted

from fedlib import NOW, world
from vf import require

IDS = ["https://refeds.org/sirtfi", "https://example.com/tm#é", "x"]
UNKNOWN = "https://unknown.example.com/tm"
def few(xs, n=9):   # most of a history concerns one of them
    return st.sampled_from([xs[0]] * n + list(xs))


SUBS = ["https://a.example.org", "https://b.example.org/", "https://b.example.org", "é\nü", "https://a.example.org/t"]
tm = st.fixed_dictionaries({"id": few(IDS), "sub": few(SUBS)},
                           optional={"life": st.sampled_from([0, 1, 10, 100, 3600, -5]),
                                     "ref": st.sampled_from(["https://x.example.org/?a=1", "line\nbreak \u2028 é"]),
                                     "extra": st.sampled_from([{"a": [1, None]}, ["{", "}"]])})
ids = few(IDS + [UNKNOWN])
op = weighted(
    (3, st.tuples(st.just("add"), tm)), (1, st.tuples(st.just("wait"), st.sampled_from([1, 9, 11, 100, 4000]))),
    (3, st.tuples(st.just("find"), ids, few(SUBS + ["https://nobody"]), st.sampled_from(["", "", "last", "first", "off", 7]))),
    (2, st.tuples(st.just("list"), ids, st.sampled_from(["", "", *SUBS]))),
    (1, st.tuples(st.sampled_from(["dump", "dumps", "reopen", "mutate"]))))
# several marks each for a few subjects, some of them expired, and then a question about all of them
mixed = st.fixed_dictionaries({"id": few(IDS), "sub": st.sampled_from(SUBS[:3])}, optional={"life": st.sampled_from([10, 100, 3600])})
many = st.tuples(st.lists(weighted((3, st.tuples(st.just("add"), mixed)), (1, st.tuples(st.just("wait"), st.sampled_from([1, 9, 11, 100])))),
                          min_size=4, max_size=14),
                 st.lists(op, max_size=6)).map(lambda p: p[0] + [("list", IDS[0], "")] + p[1] + [("list", IDS[0], "")])


def run(ctx):
    ctx.assumptions += ["without iat the mark issued last for that subject is meant (OpenID Federation)",
                        "whether a mark is still valid in the second it expires is left open",
                        "several marks for one subject issued within one second with different validity are left open "
                        "when asked for by that second"]

    def databases(case):
        from fedservice.trust_mark_entity import FileDB, SimpleDB
        tmp = tempfile.mkdtemp(dir=".")
        n = [0]

        def fresh():
            if case["kind"] == "simple":
                return SimpleDB()
            n[0] += 1
            conf.clear()
            conf.update({i: os.path.join(tmp, f"db{n[0]}-{k}") for k, i in enumerate(IDS)})
            return FileDB(**copy.deepcopy(conf))

        conf = {}
        with world() as (clock, net):
            db = fresh()
            model = []
            for step, o in enumerate(case["ops"]):
                now = int(clock.now)
                where = f"{case['kind']} step {step} {o}"

                def alive(rec):
                    """True, False or None if left open"""
                    if "exp" not in rec or rec["exp"] > now:
                        return True
                    return None if rec["exp"] == now else False

                def expect(tid, sub, iat):
                    recs = [r for r in model if r["id"] == tid and r["sub"] == sub and (not iat or r["iat"] == iat)]
                    if not recs:
                        return False
                    if iat and len({alive(r) for r in recs}) > 1:
                        return None
                    return alive(recs[-1])

                if o[0] == "add":
                    info = {k: v for k, v in o[1].items() if k != "life"}
                    info["iat"] = now
                    if "life" in o[1]:
                        info["exp"] = now + o[1]["life"]
                    given = copy.deepcopy(info)
                    db.add(given)
                    require(given == info, f"{where}: changed what was added", "mutated")
                    model.append(info)
                elif o[0] == "wait":
                    clock.advance(o[1])
                elif o[0] == "find":
                    recs = [r for r in model if r["id"] == o[1] and r["sub"] == o[2]]
                    iat = {"last": recs[-1]["iat"] if recs else now, "first": recs[0]["iat"] if recs else now, "": 0, "off": now + 1, 7: 7}[o[3]]
                    exp = expect(o[1], o[2], iat)
                    got = db.find(o[1], o[2], iat) if iat else db.find(trust_mark_id=o[1], sub=o[2])
                    require(exp is None or bool(got) == exp, lambda: f"{where}: found {got} expected {exp}; added {model}, now {now}", "find")
                    if recs:
                        ctx.nontriv([case, step])
                        ctx.label(f"find-{exp}")
                elif o[0] == "list":
                    got = db.list(o[1], o[2]) if o[2] else db.list(o[1])
                    got = list(got) if got is not None else []
                    must = {s for s in SUBS if expect(o[1], s, 0)}
                    may = {s for s in SUBS if expect(o[1], s, 0) is None}
                    if o[2]:
                        must, may = must & {o[2]}, may & {o[2]}
                    require(len(set(got)) == len(got) and must <= set(got) <= must | may,
                            lambda: f"{where}: listed {got} expected {must}; added {model}, now {now}", "list")
                    if len(model) > 1:
                        ctx.nontriv([case, step])
                    ctx.label(f"list-{len(got)}")
                elif o[0] == "mutate":
                    d = db.dump()
                    for v in d.values():
                        v.clear()
                elif o[0] == "reopen":
                    if case["kind"] == "file":
                        db = FileDB(**copy.deepcopy(conf))
                else:
                    if o[0] == "dumps":
                        d = db.dumps()
                        require(isinstance(d, str), f"{where}: {d!r}", "dumps")
                        new = fresh()
                        new.loads(d)
                    else:
                        d = db.dump()
                        new = fresh()
                        new.load(d)
                        for v in d.values():
                            v.clear()
                    # the copy lives on its own
                    db.add({"id": IDS[0], "sub": "https://later.example.org", "iat": now})
                    require(not new.find(IDS[0], "https://later.example.org"), f"{where}: shares its content with the original", "shared")
                    db = new
                    ctx.label("reloaded")

    ctx.prop("databases", st.fixed_dictionaries({
        "kind": st.sampled_from(["simple", "file"]), "ops": st.one_of(st.lists(op, min_size=3, max_size=25), many)}), databases, 3000,
        rule="distinct query after additions that concern it")
