"""C04: constraints set by a superior bind everything below it."""
from urllib.parse import urlparse

from hypothesis import strategies as st

from fedlib import DAY, EC, NOW, entity, jwks, sign, world
from vf import attempt, require

TOP = "https://ta.example.org"
NAMES = ["https://a.example.com", "https://b.a.example.com", "https://example.com", "https://aexample.com",
         "https://a.example.org", "https://a.example.com/tenant/1", "https://a.example.com:8443",
         "https://c.d.example.org/x.com", "https://b.example.com", "https://example.com.evil.net",
         "https://A.Example.COM/t", "https://org",
         "https://a.example.com@evil.net", "https://evil.net:x@a.example.com"]
SPECS = [".example.com", "a.example.com", ".a.example.com", ".com", ".example.org", "example.com", ".d.example.org",
         "a.example.org", ".evil.net", "evil.net", "aexample.com", ".org", "b.example.com"]
LABELS = ["a", "ab", "b", "abc", "co", "com", "org", "example"]   # some the beginning or the end of others
label = st.sampled_from(LABELS)


def name(i):
    return NAMES[i] if isinstance(i, int) else i


def spec(i):
    return SPECS[i] if isinstance(i, int) else i


@st.composite
def family(draw):
    """hosts that are near each other, and the constraints that are near them"""
    base = draw(st.lists(label, min_size=2, max_size=4))
    hosts = [base]
    for _ in range(draw(st.integers(3, 7))):
        h = list(draw(st.sampled_from(hosts)))
        how = draw(st.sampled_from(["below", "change", "above", "below", "change"]))
        if how == "below":
            h = [draw(label)] + h
        elif how == "above" and len(h) > 2:
            h = h[1:]
        else:
            h[draw(st.integers(0, len(h) - 1))] = draw(label)
        hosts.append(h[-5:])
    names = list(dict.fromkeys("https://" + ".".join(h) for h in hosts))
    specs = list(dict.fromkeys(d + ".".join(h[k:]) for h in hosts for k in range(min(3, len(h))) for d in ("", ".")))
    return names, specs


def host_of(eid):
    return (urlparse(eid).hostname or "").lower()


def match(eid, spec):
    """True / False / None (a subdomain of a host spec: not defined by the property)"""
    h = host_of(eid)
    if spec.startswith("."):
        return h.endswith(spec)
    if h == spec:
        return True
    return None if h.endswith("." + spec) else False


def decide(subjects, cons):
    """subjects[i]: subject of statement i (top first); cons[i]: constraints of statement i or None.
    Returns True/False/None."""
    n = len(subjects)
    unsure = False
    for i, c in enumerate(cons):
        if not c:
            continue
        m = c.get("max_path_length")
        if m is not None and n - 1 - i > m:   # entities below the issuer's direct subject down to the leaf
            return False
        nc = c.get("naming_constraints") or {}
        for s in subjects[i:]:
            ex = [match(s, x) for x in nc.get("excluded", [])]
            if any(x is True for x in ex):
                return False
            unsure |= any(x is None for x in ex)
            if nc.get("permitted"):
                pe = [match(s, x) for x in nc["permitted"]]
                if not any(x is True for x in pe):
                    if any(x is None for x in pe):
                        unsure = True
                    else:
                        return False
    return None if unsure else True


@st.composite
def constraint(draw, subjects, i, specs):
    c = {}
    below = len(subjects) - 1 - i
    if draw(st.booleans()):
        c["max_path_length"] = draw(st.sampled_from([max(0, below - 1), below, below, below + 1, 0, 3]))
    if draw(st.booleans()):
        nc = {}
        helpful = [j for j in specs if all(match(x, spec(j)) for x in subjects[i:])] or specs
        harmless = [j for j in specs if not any(match(x, spec(j)) for x in subjects[i:])] or specs[:1]
        anyspec = st.sampled_from(specs)
        if draw(st.booleans()):
            nc["permitted"] = draw(st.lists(st.one_of(st.sampled_from(helpful), st.sampled_from(helpful), anyspec),
                                            min_size=1, max_size=3, unique=True))
        if draw(st.booleans()):
            nc["excluded"] = draw(st.lists(st.one_of(st.sampled_from(harmless), st.sampled_from(harmless), anyspec),
                                           min_size=1, max_size=3, unique=True))
        c["naming_constraints"] = nc
    return c


@st.composite
def cases(draw, maxn=5):
    n = draw(st.integers(1, maxn))
    specs = list(range(len(SPECS)))
    if draw(st.integers(0, 2)) == 0:
        fam, specs = draw(family())
    else:
        fam = draw(st.sampled_from([[0, 1, 3, 5, 6, 8, 9, 10], [0, 1, 5, 6, 8, 10], [4, 7, 11], [0, 1, 3, 9, 12, 13], list(range(len(NAMES)))]))
    idx = draw(st.lists(st.sampled_from(fam), min_size=min(n, len(fam)), max_size=min(n, len(fam)), unique=True))
    subjects = [name(i) for i in idx]
    cons = [draw(st.one_of(st.none(), constraint(subjects, i, specs), constraint(subjects, i, specs))) for i in range(len(idx))]
    if draw(st.integers(0, 2)) == 0:   # one demand that is not met, anywhere
        i = draw(st.integers(0, len(idx) - 1))
        c = cons[i] = dict(cons[i] or {})
        kind = draw(st.sampled_from(["max_path_length", "permitted", "excluded"]))
        if kind == "max_path_length":
            c[kind] = max(0, len(idx) - 2 - i)
        else:
            victim = draw(st.sampled_from(subjects[i:]))
            fit = [j for j in specs if (match(victim, spec(j)) is (kind == "excluded"))]
            if fit:
                c["naming_constraints"] = dict(c.get("naming_constraints") or {}, **{kind: [draw(st.sampled_from(fit))]})
    return {"s": idx, "c": cons, "msg": draw(st.booleans()), "ta_ec": draw(st.booleans())}


def expand(case):
    subjects = [name(i) for i in case["s"]]
    cons = []
    for c in case["c"]:
        if c is None:
            cons.append(None)
            continue
        c = dict(c)
        if "naming_constraints" in c:
            c["naming_constraints"] = {k: list(v) for k, v in c["naming_constraints"].items()}
        cons.append(c)
    model = []
    for c in cons:
        if c and "naming_constraints" in c:
            m = dict(c)
            m["naming_constraints"] = {k: [spec(i) for i in v] for k, v in c["naming_constraints"].items()}
            real = dict(c)
            real["naming_constraints"] = {k: ["https://" + spec(i) for i in v]
                                          for k, v in c["naming_constraints"].items()}
            model.append((m, real))
        else:
            model.append((c, c))
    return subjects, [m for m, _ in model], [r for _, r in model]


def statements(subjects, real, ta_ec=False):
    sts = []
    if ta_ec:
        sts.append({"iss": TOP, "sub": TOP})
    for i, (s, c) in enumerate(zip(subjects, real)):
        p = {"iss": TOP if i == 0 else subjects[i - 1], "sub": s}
        if c is not None:
            p["constraints"] = c
        sts.append(p)
    sts.append({"iss": subjects[-1], "sub": subjects[-1]})
    for p in sts:
        p.update({"iat": NOW, "exp": NOW + DAY})
    return sts


def run(ctx):
    ctx.assumptions += ["a host constraint's effect on subdomains of that host is left open",
                        "constraint lists are non-empty and use the URL notation of the repository"]

    def note(case, want):
        cs = [c for c in case["c"] if c]
        ctx.label({True: "met", False: "violated", None: "open"}[want])
        if any("max_path_length" in c for c in cs):
            ctx.label("max_path_length")
        if sum(1 for c in cs if c.get("naming_constraints")) >= 2:
            ctx.label("two-levels-of-naming")
        if cs:
            ctx.nontriv()

    def direct(case):
        from fedservice.entity_statement.constraints import meets_restrictions
        from fedservice.message import EntityStatement
        subjects, model, real = expand(case)
        want = decide(subjects, model)
        sts = statements(subjects, real, case["ta_ec"])
        if case["msg"]:
            sts = [EntityStatement(**p) for p in sts]
        out = attempt(meets_restrictions, sts)
        require(out.ok, lambda: f"evaluation of constraints failed: {out}", "raise")
        if want is not None:
            require(bool(out.value) == want, lambda: f"constraints {'met' if want else 'violated'} but the result is "
                                                     f"{out.value}: {subjects} {model}", f"wrong-{want}")
        note(case, want)

    ctx.prop("direct", cases(), direct, 2000, 30000, rule="at least one statement carries constraints")

    def chain(case):
        """the same through signed chains: a violated constraint means no trust chain"""
        subjects, model, real = expand(case)
        want = decide(subjects, model)
        with world():
            fe = entity("https://ev.example.org", 0, trust_anchors={TOP: jwks(EC[0])})
            sts = statements(subjects, real, case["ta_ec"])
            ids = [TOP] + subjects
            toks = [sign(dict(p, jwks=jwks(EC[ids.index(p["sub"])])), EC[ids.index(p["iss"])]) for p in sts]
            out = attempt(fe.function.verifier, toks)
            got = bool(out.ok and out.value)
            if want is not None:
                require(got == want, lambda: f"chain {'refused' if want else 'accepted'}: {out}; {subjects} {model}",
                        f"chain-{want}")
            note(case, want)

    ctx.prop("chain", cases(4), chain, 500, rule="at least one statement carries constraints")
