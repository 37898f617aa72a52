"""Small stateful parts: Options, VarSets, Smt2Values, Guards, Conv."""
import os
from vlib import Builder, VERIF, cfg, symbolic_sources, util_sources, rp


POOL = "third_party/com_github_progschj_threadpool"


def _exe(san=False):
    b = Builder(sanitize=san)
    smt2 = [rp("dreal/smt2", f) for f in sorted(os.listdir(rp("dreal/smt2")))
            if f.startswith(("sort", "term", "logic", "command")) and
            f.endswith(".cc")]
    return b.link("util" + ("-san" if san else ""),
                  [os.path.join(VERIF, "harness/util.cc")] +
                  symbolic_sources() + util_sources() + smt2,
                  ["-lgmp", "-lpthread"])


def _flat(h):
    return [" ".join(map(str, x)) for x in h]


def _behaviours(c, module, head, exact, rnd, props, actions=(), per=1):
    """exact, rnd: constants of the exhaustive and of the sampled run."""
    cases = []
    for consts in (exact, rnd):
        consts = dict(consts, Random="TRUE" if consts is rnd else "FALSE",
                      Seed0=c.seed)
        consts.setdefault("Runs", 1)
        r = c.tlc(module, cfg(init="Init", next_="Next",
                              invariants=list(props) + ["Emit"],
                              properties=list(actions), constants=consts))
        for n, h in enumerate(x for x in r.lines if isinstance(x, list)):
            for k in range(per):
                cases.append([head(consts, n * per + k)] + _flat(h))
        c.samples.append({"module": module, "behaviour": cases[-1][:10]})
    c.coverage["distinct_behaviours"] = len({tuple(x) for x in cases})
    return cases


def c12(c):
    types = ("double", "int", "string", "vector")
    cases = _behaviours(
        c, "Options", lambda k, n: "options %s %d" % (types[n % 4], k["NO"]),
        {"NO": 1, "NV": 2, "L": c.q(4, 6)},
        {"NO": 3, "NV": 4, "L": 40, "Runs": c.q(6000, 60000)},
        ["ImplRefines"], ["Precedence"])
    st, _, _ = c.replay(_exe(), cases, label="behaviour")
    c.coverage["values_compared"] = st.get("values", 0)


def c15(c):
    cases = _behaviours(
        c, "VarSets",
        lambda k, n: "varsets %d %d %d %d" % (k["NS"], k["NE"], k["NV"], n),
        {"NS": 2, "NE": 1, "NV": 2, "L": c.q(3, 4)},
        {"NS": 4, "NE": 3, "NV": 6, "L": 60, "Runs": c.q(5000, 40000)},
        [], ["Frame"])
    st, _, _ = c.replay(_exe(), cases, label="behaviour")
    c.coverage["steps_replayed"] = st.get("steps", 0)


def c17(c):
    r = c.tlc("Smt2Values", cfg(
        init="Init", next_="Next", invariants=["Emit"],
        constants={"NT": 2, "L": 2, "MaxDepth": 4, "Random": "FALSE",
                   "Seed0": c.seed, "Runs": 1}))
    r2 = c.tlc("Smt2Values", cfg(
        init="Init", next_="Next", invariants=["Emit"],
        constants={"NT": 3, "L": 25, "MaxDepth": 6, "Random": "TRUE",
                   "Seed0": c.seed, "Runs": c.q(4000, 30000)}))
    cases = []
    for x in r.lines:
        if isinstance(x, dict) and "names" in x:
            cases.append(["names"] + ["%d %d [%s]" % (s, g, nm)
                                      for nm, s, g in x["names"]])
        elif isinstance(x, dict):
            cases.append(["commands"] + ["%d %s" % (n, t)
                                         for t, n in x["cmds"]])
    for rr, nt in ((r, 2), (r2, 3)):
        for n, h in enumerate(x for x in rr.lines if isinstance(x, list)):
            cases.append(["terms %d %d" % (nt, n)] + _flat(h))
    c.samples.append(cases[-1][:8])
    c.coverage["distinct_behaviours"] = len({tuple(x) for x in cases})
    st, _, _ = c.replay(_exe(), cases, label="behaviour")
    c.coverage.update({k: st.get(k, 0) for k in ("terms", "names",
                                                 "commands")})


def c19(c):
    cases = _behaviours(
        c, "Guards", lambda k, n: "guards %d %d" % (k["NO"], k["NG"]),
        {"NO": 1, "NG": 1, "MaxDepth": 2, "L": c.q(4, 5)},
        {"NO": 2, "NG": 2, "MaxDepth": 6, "L": 40,
         "Runs": c.q(5000, 40000)}, [])
    r = c.tlc("Conv", cfg(init="Init", next_="Next", invariants=["Emit"]))
    cases += [["conv"] + _flat(r.lines[i:i + 50])
              for i in range(0, len(r.lines), 50)]
    st, _, _ = c.replay(_exe(), cases, label="behaviour")
    c.coverage["steps_replayed"] = st.get("steps", 0)
    c.coverage["numbers_converted"] = st.get("numbers", 0)


def c13(c):
    b = Builder()
    exe = b.link("timer", [os.path.join(VERIF, "harness/timer.cc"),
                           rp("dreal/util/timer.cc")])
    units = (1, 7, 1000, 999999937, 3600 * 10 ** 9)
    cases = _behaviours(
        c, "Timers", lambda k, n: "%d %d %d" % (
            k["NT"], units[n % 5], (0, 10 ** 9, 123456789012345)[n % 3]),
        {"NT": 1, "MaxTick": 2, "MaxGuards": 1, "L": c.q(5, 6)},
        {"NT": 3, "MaxTick": 9, "MaxGuards": 4, "L": 60,
         "Runs": c.q(4000, 40000)}, ["ImplRefines"], ["OnlyTicks"])
    st, _, _ = c.replay(exe, cases, label="behaviour")
    c.coverage["steps_replayed"] = st.get("steps", 0)


def c14(c):
    b = Builder(flags=["-iquote", rp(POOL), "-I" + rp(POOL)])
    exe = b.link("pool", [os.path.join(VERIF, "harness/pool.cc")] +
                 [os.path.join(rp(POOL), "ThreadPool", f)
                  for f in sorted(os.listdir(rp(POOL, "ThreadPool")))
                  if f.endswith(".cc")], ["-ldl"])
    for w, t in ((1, 2), (2, 2), (2, 3)) + c.q((), ((3, 3), (2, 4))):
        c.tlc("PoolImpl", cfg(invariants=["Once", "Fifo"],
                              properties=["Refines", "Terminates"],
                              constants={"W": w, "T": t}))
    cases = []
    for exact in (True, False):
        k = ({"MaxW": 2, "MaxT": 4, "L": c.q(6, 7)} if exact else
             {"MaxW": 4, "MaxT": 16, "L": 24})
        r = c.tlc("Pool", cfg(
            init="Init", next_="Next",
            invariants=["Conservation", "WorkConserving", "Fifo", "Emit"],
            constants=dict(k, Random="FALSE" if exact else "TRUE",
                           Seed0=c.seed, Runs=c.q(5000, 40000))))
        hs = r.lines
        if exact and len(hs) > c.q(7300, 60000):
            step = len(hs) // c.q(7300, 60000) + 1
            hs = hs[c.seed % step::step]
        for n, h in enumerate(hs):
            cases.append(["%d %d %d" % (n % 3, n // 3 % 2, c.seed * 7 + n)] +
                         _flat(h))
        c.samples.append(cases[-1][:8])
    c.coverage["distinct_behaviours"] = len({tuple(x[1:]) for x in cases})
    st, _, _ = c.replay(exe, cases, label="behaviour", timeout=400)
    c.coverage["observations"] = st.get("observations", 0)
