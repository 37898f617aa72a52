"""The symbolic layer: Sym.tla behaviours replayed in the real code, and real
results validated by TLC (Valid.tla)."""
import json
import os
from vlib import Builder, CheckError, VERIF, cfg, symbolic_sources, \
    util_sources


def term(t):
    k = t[0]
    if k in ("var", "bvar"):
        return "%s %d" % (k, t[1])
    if k == "const":
        return "const %d %d" % (t[1], t[2])
    if k == "fn":
        return "fn %s %s" % (t[1], term(t[2]))
    if k == "forall":
        return "forall %d %s %d %s %s" % (
            len(t[1]), " ".join(map(str, t[1])),
            len(t[2]), " ".join(map(str, t[2])), term(t[3]))
    return " ".join([k] + [term(x) for x in t[1:]])


def lines(h, seed):
    out = [str(seed)]
    for s in h:
        o = s["op"]
        out.append(" ".join(map(str, [
            "step", s["k"], o["nm"], o["o"], o["m"], s["d"], o["a"], o["b"],
            o["c"]] + list(o["p"]))))
        out.append(term(s["t"]))
        tab = s["tab"]
        if tab and isinstance(tab[0], list):
            out.append("E " + " ".join("%d %d" % (v[0], v[1]) for v in tab))
        else:
            out.append("F " + " ".join(map(str, tab)))
    return out


def harness(sanitize=False):
    b = Builder(sanitize=sanitize)
    return b.link("sym", [os.path.join(VERIF, "harness/sym.cc")] +
                  symbolic_sources() + util_sources())


BUILD_E = ["ld", "ld", "ldr", "bin", "bin", "bin", "bin", "neg", "inc", "pow", "pow",
           "powe", "fn", "mm", "sum", "prod", "prode", "plus"]
BUILD_F = ["bl", "rel", "rel", "conn", "conn", "conn", "vconn", "mk", "not",
           "imp", "iff", "fne"]


def op(nm, o="-", m=0, d=1, a=1, b=1, c=1, p=(0,)):
    return 'Op("%s", "%s", %d, %d, %d, %d, %d, <<%s>>)' % (
        nm, o, m, d, a, b, c, ",".join(map(str, p)))


def behaviours(c, profile, length, runs, size=30, random=True, seed=None,
               script=()):
    mc = ("---- MODULE MCSym ----\nEXTENDS Sym\nP_ == <<%s>>\n"
          "S_ == <<%s>>\n====\n") % (
        ",".join('"%s"' % x for x in profile), ",\n".join(script))
    r = c.tlc("MCSym", cfg(
        invariants=["DualAgrees", "DeltaBrackets", "Emit"],
        properties=["SubstLemma"],
        constants={"L": length, "MaxSize": size,
                   "Random": "TRUE" if random else "FALSE",
                   "Seed0": c.seed if seed is None else seed, "Runs": runs}) +
        "CONSTANT Profile <- P_\nCONSTANT Script <- S_\n",
        files={"MCSym.tla": mc})
    pts = [x for x in r.lines if "points" in x][0]["points"]
    env = "%d " % len(pts) + " ".join(
        " ".join("%d %d" % tuple(v) for v in p["n"]) + " " +
        " ".join(map(str, p["b"])) for p in pts)
    return [x["h"] for x in r.lines if "h" in x], env


def check(c, profile, own, runs, length=12, size=30, small=None, laws=False,
          trace=None, thorough=8, focus=None, env=None):
    """profile: operations generated; own: kinds of divergence decided here;
    small: the exhaustive alphabet ("E"/"F", depth); focus: a second profile
    of few operations, in which combinations are dense (a third of the
    runs)."""
    exe = harness()
    n = c.q(runs, runs * thorough)
    hs, pts = behaviours(c, profile, length, n - n // 3 if focus else n, size)
    if focus:
        h2, pts = behaviours(c, focus, length, n // 3, size,
                             seed=c.seed + 7919)
        hs += h2
    cases = [lines(h, i) for i, h in enumerate(hs)]
    if small:
        hs2, _ = behaviours(c, [small[0]], small[1], 0, random=False)
        cases += [lines(h, 7 + i) for i, h in enumerate(hs2)]
        c.coverage["exhaustive_programs"] = len(hs2)
    env = dict(env or {}, SYM_POINTS=pts, SYM_OWN=" ".join(own))
    if laws:
        env["SYM_LAWS"] = "1"
    if trace:
        env["SYM_TRACE"] = "1"
    st, ok, fails = c.replay(exe, cases, env=env, label="behaviour")
    if st.get("internal"):
        raise CheckError("the reference evaluator disagrees with TLC")
    for k in st:
        c.coverage["n_" + k] = st[k]
    c.coverage["distinct_behaviours"] = len({"\n".join(x[1:]) for x in cases})
    c.samples += [cases[0][:7], cases[len(cases) // 2][:7]]
    for k in ("values", "truths"):
        if st.get(k, 0) == 0 and not fails:
            raise CheckError("vacuous: no %s compared" % k)
    if trace:
        validate(c, c.traces_out, trace)
    return st


def validate(c, traces, limit):
    """TLC decides recorded results of the real code (Valid.tla)."""
    if not traces:
        raise CheckError("no recorded results to validate")
    traces = sorted(set(traces))
    step = max(1, len(traces) // limit)
    traces = traces[::step][:limit]
    r = c.tlc("Valid", cfg(init="Init", next_="Next", invariants=["Emit"]),
              files={"trace.ndjson": "".join(
                  '{"r": %s}\n' % t for t in traces)})
    seen = 0
    for x in r.lines:
        seen += 1
        if not x["ok"]:
            c.violation("recorded result %d: %s" % (x["i"], x["why"]),
                        traces[x["i"] - 1])
    if seen != len(traces):
        raise CheckError("TLC judged %d of %d results" % (seen, len(traces)))
    c.coverage["results_validated_by_tlc"] = seen


def c01(c):
    check(c, BUILD_E + ["ite", "rel", "bl", "conn"],
          BUILD_E + ["ite", "eval"], 9000, small=("E", 2),
          focus=["ld"] + ["bin"] * 8 + ["pow"] * 2 + ["inc", "prod", "sum"])


FS = BUILD_E + BUILD_F + ["ite"]


def scripted(c, script, own, env=None):
    """One fixed program (a regression or the probe of a known finding)."""
    hs, pts = behaviours(c, ["ld"], len(script), 0, random=False,
                         script=script)
    e = {"SYM_POINTS": pts, "SYM_OWN": " ".join(own)}
    e.update(env or {})
    c.replay(harness(), [lines(h, 1) for h in hs], env=e, label="script")


CAPTURE = [op("rel", "eq", d=1, a=1, b=2),
           op("forall", d=1, a=1, p=(1, 0)),
           op("subF", d=2, a=1, p=(2, 1, 0, 1, 0, 1))]
EXPAND = [op("bin", "div", d=4, a=1, b=2),
          op("bin", "add", d=4, a=2, b=4),
          op("pow", d=4, a=4, c=1),
          op("bin", "mul", d=4, a=4, b=2),
          op("expand", d=4, a=4)]


def uf(c, own, runs):
    """Uninterpreted functions (Uf.tla)."""
    b = Builder()
    exe = b.link("uf", [os.path.join(VERIF, "harness/uf.cc")] +
                 symbolic_sources() + util_sources())
    cases = []
    for k in ({"NE": 3, "NF": 1, "NV": 1, "L": c.q(3, 4), "Runs": 1},
              {"NE": 5, "NF": 3, "NV": 3, "L": 14,
               "Runs": c.q(runs, runs * 10)}):
        k = dict(k, Random="TRUE" if k["NE"] == 5 else "FALSE",
                 Seed0=c.seed)
        r = c.tlc("Uf", cfg(init="Init", next_="Next",
                            invariants=["Canonical", "Emit"],
                            properties=["Idle"], constants=k))
        for n, h in enumerate(x for x in r.lines if isinstance(x, list)):
            cases.append(["uf %d %d %d %d" % (k["NE"], k["NF"], k["NV"], n)] +
                         [" ".join(map(str, x)) for x in h])
    st, ok, _ = c.replay(exe, cases, env={"SYM_OWN": own},
                         label="uninterpreted functions")
    c.coverage["uninterpreted_function_behaviours"] = ok


def c02(c):
    uf(c, "sub", 2000)
    scripted(c, CAPTURE, ["subF"], {"SYM_CAPTURE": "1"})
    scripted(c, EXPAND, ["expand"])
    check(c, FS + ["subE"] * 6 + ["subF"] * 8 + ["epart"] * 2 +
          ["expand"] * 2 + ["forall"] * 3,
          ["subE", "subF", "epart", "expand"], 10000,
          focus=["ld", "bin", "bin"] + ["ite"] * 5 + ["bl"] * 4 +
          ["rel", "conn", "not"] + ["subE"] * 6 + ["subF"] * 3 + ["epart"])


def c03(c):
    uf(c, "diff", 1000)
    check(c, BUILD_E + ["fn"] * 3 + ["pow"] * 2 + ["diff"] * 7, ["diff"],
          18000, size=90,
          focus=["ld", "ld", "bin", "bin", "powe", "powe", "powe", "pow"]
          + ["diff"] * 4)


def c04(c):
    uf(c, "build", 2000)
    check(c, ["ld", "bin", "bin", "fn", "mm", "ite", "inc"] + BUILD_F * 2 +
          ["forall", "forall"],
          BUILD_F + ["forall", "feval", "vars"], 10000, small=("F", 2),
          focus=["bl", "rel", "mk", "vconn", "forall", "not"] + ["conn"] * 5)


def c05(c):
    uf(c, "equal", 2000)
    check(c, FS + ["forall"], ["laws", "twin", "comm"], 6000, laws=True,
          trace=600)


def c06(c):
    check(c, ["ld", "bin", "fn", "ite"] + BUILD_F * 2 +
          ["not", "iff", "forall"] + ["nnf"] * 8, ["nnf"], 10000,
          focus=["bl", "rel", "not", "not", "conn", "conn", "forall"] +
          ["nnf"] * 3)


def c07(c):
    check(c, ["ld", "bin"] + BUILD_F * 2 + ["not", "iff", "forall"] +
          ["tse"] * 8 + ["cnf"] * 5, ["tse", "cnf"], 10000,
          focus=["bl", "rel", "not", "conn", "conn", "mk"] + ["tse"] * 3)


def c08(c):
    check(c, ["ld", "bin", "bin", "bin", "mm", "pow", "powe", "prode", "prod",
              "fn"] + ["ite"] * 8 +
          BUILD_F + ["rel"] * 4 + ["forall"] * 2 + ["ielim"] * 8, ["ielim"],
          10000, size=40, focus=["ld", "bl", "bin", "powe", "prode", "prode",
                                   "fn"] + ["ite"] * 5 +
          ["rel"] * 4 + ["ielim"] * 4)


def c09(c):
    check(c, ["ld", "bin", "mm"] + BUILD_F * 2 + ["forall"] + ["pabs"] * 8,
          ["pabs"], 10000, focus=["ld", "rel", "rel", "conn", "not", "forall"] +
          ["pabs"] * 3)


def c10(c):
    check(c, ["ld", "bin", "bin", "mm", "pow", "ite", "ite"] + BUILD_F * 2 +
          ["rel"] * 4 +
          ["dstr"] * 5 + ["dweak"] * 5, ["dstr", "dweak"], 10000, trace=8000,
          focus=["ld", "bl", "rel", "rel", "not", "conn", "conn"] +
          ["dstr"] * 2 + ["dweak"] * 2)


def _numerals(c, kind):
    cases = []
    for consts in (dict(L=1, Random="FALSE", Runs=1),
                   dict(L=60, Random="TRUE", Runs=c.q(1500, 15000))):
        r = c.tlc("Numerals", cfg(init="Init", next_="Next",
                                  invariants=["Fits", "Emit"],
                                  constants=dict(consts, Seed0=c.seed)))
        hs = [x for x in r.lines if isinstance(x, list)]
        if consts["L"] == 1:
            hs = [sum(hs[i:i + 60], []) for i in range(0, len(hs), 60)]
        cases += [[kind] + [" ".join(map(str, x)) for x in h]
                  for h in hs]
    import util
    st, _, _ = c.replay(util._exe(), cases, label=kind)
    c.coverage["numerals_read_back"] = st.get("numerals", 0)


def c29(c):
    check(c, FS + ["inE"] * 7 + ["inF"] * 7, ["inE", "inF"], 10000,
          env={"SYM_NAMES": "plain"},
          focus=["ld", "bin", "bin", "pow", "fn", "mm", "rel", "conn", "ite"] +
          ["inE"] * 4 + ["inF"] * 2)
    _numerals(c, "infix-numerals")


def c16(c):
    check(c, FS + ["prE"] * 7 + ["prF"] * 7, ["prE", "prF"], 10000,
          env={"SYM_NAMES": "plain"})
    _numerals(c, "numerals")


def c18(c):
    check(c, FS + ["forall"] * 3 + ["shape"] * 9 + ["shapeE"] * 6,
          ["shape", "shapeE"], 12000,
          trace=25000, focus=["bl", "rel", "not", "not", "forall", "mk"] +
          ["conn"] * 4 + ["shape"] * 4 +
          ["bin", "pow", "shapeE"])


def c30(c):
    b = Builder()
    exe = b.link("domain", [os.path.join(VERIF, "harness/domain.cc")] +
                 symbolic_sources() + util_sources())
    cases = []
    for k in ({"NV": 3, "L": 4, "Runs": 1},
              {"NV": 7, "L": 24, "Runs": c.q(12000, 120000)}):
        k = dict(k, Random="TRUE" if k["NV"] == 7 else "FALSE", Seed0=c.seed)
        r = c.tlc("Domain", cfg(init="Init", next_="Next",
                                invariants=["Linear", "Strict", "Emit"],
                                constants=k))
        for h in (x for x in r.lines if isinstance(x, list)):
            cases.append(["domain %d" % k["NV"]] +
                         [" ".join(map(str, x)) for x in h])
        c.samples.append({"module": "Domain", "behaviour": cases[-1][:12]})
    st, ok, _ = c.replay(exe, cases, label="behaviour")
    c.coverage.update(behaviours=ok, observations=st.get("observations", 0),
                      refusals=st.get("refusals", 0))
