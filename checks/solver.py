"""The solver (built against the IBEX stand-in): Solve and its neighbours."""
import os
from vlib import Builder, VERIF, SOLVER_LIBS, cfg, solver_sources, rp


def _exe(name, smt2=False, san=False):
    b = Builder(shim=True, sanitize=san)
    gen = b.gen_parsers()
    srcs = solver_sources()
    if smt2:
        srcs = [os.path.join(VERIF, "harness/dr_text.cc")] + srcs
        for d in ("smt2", "dr"):
            srcs += [rp("dreal", d, f)
                     for f in sorted(os.listdir(rp("dreal", d)))
                     if f.endswith(".cc") and
                     rp("dreal", d, f) not in srcs]
            srcs += ["%s/dreal/%s/%s.cc" % (gen, d, f)
                     for f in ("parser.yy", "scanner.ll")]
    return b.link(name + ("-san" if san else ""),
                  [os.path.join(VERIF, "harness/%s.cc" % name)] + srcs,
                  SOLVER_LIBS)


def sx(x):
    if isinstance(x, list):
        return "( " + " ".join(sx(y) for y in x) + " )"
    if isinstance(x, bool):
        return "1" if x else "0"
    return str(x)


MIXES = ("IB", "IIB", "RRB", "IRBN", "RRI", "BBIIR", "RR", "BBBR", "RIN", "IR",
         "RRRR", "JKB", "JRI", "BKJK", "IIN")


def _solve(c, runs, length, mixes, confs, ite=True, quant=False, scopes=True,
           exact=None, seed=0, conf=0, fun=False):
    cases = []
    todo = []
    if exact:
        todo.append(dict(Mix=1, L=exact, Random="FALSE", Runs=1))
    for k in mixes:
        todo.append(dict(Mix=k, L=length, Random="TRUE",
                         Runs=max(1, runs // len(mixes))))
    for t in todo:
        r = c.tlc("Solve", cfg(
            init="Init", next_="Next",
            invariants=["OneDecl", "Closed", "Emit"],
            properties=["Harder", "PopRestores"],
            constants=dict(t, Seed0=c.seed + 97 * (t["Mix"] + seed),
                           Ite="TRUE" if ite else "FALSE",
                           Quant="TRUE" if quant else "FALSE", Conf=conf,
                           Scopes="TRUE" if scopes else "FALSE", Fun="TRUE" if fun else "FALSE")))
        ts = MIXES[t["Mix"] - 1]
        for h in r.lines:
            cf = confs[len(cases) % len(confs)]
            cases.append(["solve %s %d %d" % (ts, cf, len(cases))] +
                         [sx(x) for x in h])
    c.samples.append(cases[-1])
    c.coverage["distinct_behaviours"] = len({tuple(x[1:]) for x in cases})
    return cases




def _join(cases, more):
    for x in more:
        w = x[0].split()
        cases.append(["solve %s %s %d" % (w[1], w[2], len(cases))] + x[1:])


def c20(c):
    exe = _exe("solve")
    cases = _solve(c, c.q(2000, 20000), 9, range(2, 9), range(0, 16), scopes=False)
    more = _solve(c, c.q(1600, 16000), 9, (3, 5, 7, 9, 10), range(0, 16),
                  scopes=False, fun=True, seed=7)
    _join(cases, more)
    # far-away integers; wide boxes may stay undecided in the answer
    _join(cases, _solve(c, c.q(900, 9000), 9, (12, 13, 14), range(0, 16),
                        scopes=False, seed=21))
    st, _, _ = c.replay(exe, cases, label="problem", timeout=600)
    c.coverage.update(st)


def c21(c):
    exe = _exe("solve")
    cases = _solve(c, c.q(2000, 20000), 16, range(2, 9), range(0, 16),
                   exact=c.q(5, 6), seed=1)
    _join(cases, _solve(c, c.q(900, 9000), 16, (3, 5, 9), range(0, 256, 3), seed=8,
                        fun=True))
    st, _, _ = c.replay(exe, cases, label="history", timeout=600)
    c.coverage.update(st)


def c27(c):
    """Two contexts used alternately: each projection is a behaviour."""
    exe = _exe("solve")
    a = _solve(c, c.q(1600, 16000), 12, range(2, 9), range(0, 256, 7),
               seed=3, quant=True, fun=True)
    b = list(reversed(_solve(c, c.q(1600, 16000), 12, range(2, 9),
                             range(16, 64), seed=4, quant=True)))
    cases = []
    for n, (x, y) in enumerate(zip(a, b)):
        wx, wy = x[0].split(), y[0].split()
        if n % 3 == 2:      # the same problem, in a context of its own
            y = x
            wy[1] = wx[1]
        # (unless n % 3 == 0, they are about the same variables)
        out = ["duo %s %s %d %s %s" % (wx[1], wx[2], n, wy[1], wy[2])]
        i = j = 1
        r = n + c.seed
        while i < len(x) or j < len(y):
            r = (r * 1103515245 + 12345) % 2 ** 31
            if j >= len(y) or (i < len(x) and (r >> 16) % 2):
                out.append("1 " + x[i])
                i += 1
            else:
                out.append("2 " + y[j])
                j += 1
        cases.append(out)
    c.coverage["distinct_behaviours"] = len({tuple(x[1:]) for x in cases})
    c.samples.append(cases[-1])
    st, _, _ = c.replay(exe, cases, label="history", timeout=600)
    c.coverage.update(st)


def c28(c):
    """Minimize and Maximize."""
    cases = []
    mixes = (1, 2, 3, 4, 5, 7, 9, 10)
    for k, chain in [(k, 0) for k in mixes] + [(k, 1) for k in (4, 6, 11)]:
        r = c.tlc("Optimize", cfg(
            init="OInit", next_="ONext",
            invariants=["OneDecl", "Closed", "GoalScope", "Emit"],
            properties=["GoalOnly"],
            constants=dict(Mix=k, L=10 + 2 * chain, Random="TRUE",
                           Seed0=c.seed + 83 * k,
                           Runs=c.q(3200 if chain else 1600, 16000) // len(mixes), Ite="FALSE",
                           Quant="FALSE", Conf=chain, Scopes="TRUE", Fun="FALSE")))
        for h in r.lines:
            cf = len(cases) % 256
            cases.append(["solve %s %d %d" % (MIXES[k - 1], cf - (cf % 9 == 8), len(cases))] +
                         [sx(x) for x in h])
    c.samples.append(cases[-1])
    c.coverage["distinct_behaviours"] = len({tuple(x[1:]) for x in cases})
    st, _, _ = c.replay(_exe("solve"), cases, label="history", timeout=600)
    c.coverage.update(st)


def c22(c):
    exe = _exe("solve")
    cases = _solve(c, c.q(2000, 20000), 12, range(2, 9), range(16, 64),
                   seed=2, quant=True)
    # The options change between the checks of a history.
    more = _solve(c, c.q(800, 8000), 16, (2, 4, 7), range(0, 256, 5),
                  seed=5, quant=True, conf=256)
    more += _solve(c, c.q(1200, 12000), 12, (2, 4, 7), range(0, 256, 9),
                   seed=6, quant=True, conf=1256)
    _join(cases, more)
    # The known finding (see known_findings.txt): an if-then-else term under
    # a quantifier.
    cases.append(["solve RR 0 %d" % len(cases), "( decl 1 0 1 )",
                  "( assert ( all 0 4 le 2 ( ite ( rel lt ( v 1 ) ( c 2 ) ) "
                  "( c 4 ) ( c 2 ) ) ) )", "( check 0 ( 1 ) ( 1 ) )"])
    st, _, _ = c.replay(exe, cases, label="history", timeout=600)
    c.coverage.update(st)


def _boxes(c, flt):
    cases = []
    for k in (dict(L=c.q(3, 4) if flt == "TRUE" else c.q(4, 5), Random="FALSE", Runs=1, NB=2),
              dict(L=30, Random="TRUE", Runs=c.q(4000, 40000), NB=3)):
        r = c.tlc("Boxes", cfg(
            init="Init", next_="Next",
            invariants=["Sizes", "Proper", "Emit"], properties=["Shrinks"],
            constants=dict(k, Seed0=c.seed, Flt=flt)))
        cases += [["boxes %d" % k["NB"]] + [sx(x) for x in h] for h in r.lines]
    c.samples.append(cases[-1])
    c.coverage["distinct_behaviours"] = len({tuple(x) for x in cases})
    st, _, _ = c.replay(_exe("boxes"), cases, label="behaviour", timeout=600)
    c.coverage.update(st)


def c24(c):
    _boxes(c, "FALSE")


def c25(c):
    _boxes(c, "TRUE")


def c23(c):
    cases = []
    for mix in (3, 7, 5, 9, 10, 11, 15, 18):
        r = c.tlc("Prune", cfg(
            init="PInit", next_="PNext", invariants=["PEmit", "OneDecl"],
            constants=dict(Mix={3: 7, 18: 15}.get(mix, mix), L=1, Random="TRUE",
                           Seed0=c.seed + 31 * mix,
                           Runs=c.q(400 if mix == 11 else 300, 4000 if mix != 11 else 800), Ite="FALSE", Quant="FALSE", Conf=0,
                           Scopes="FALSE", Fun="FALSE",
                           NF=5 if mix == 11 else 1 + mix % 4)))
        ts = MIXES[{3: 7, 18: 15}.get(mix, mix) - 1]
        for h in r.lines:
            cases.append(["prune %s %d" % (ts, len(cases) % 4)] +
                         [sx(x) for x in h])
    c.samples.append([x[:300] for x in cases[-1]])
    c.coverage["distinct_behaviours"] = len({tuple(x[1:]) for x in cases})
    st, _, _ = c.replay(_exe("prune"), cases, label="case", timeout=600)
    c.coverage.update(st)


NUM = ("%d", "%.1f", "+%.1f", "%.2fe0", "%.0fe-1", "hex", "0%.2f")
OPS = {"lt": "<", "le": "<=", "eq": "=", "ge": ">=", "gt": ">", "iff": "=",
       "imp": "=>", "iteb": "ite"}


def _num(k, style):
    """A literal for k quarters (an even number of them)."""
    x = k / 4.0
    f = NUM[style]
    if f == "%d" and x != int(x):
        f = "%.1f"
    if f == "+%.1f" and x < 0:
        f = "%.1f"
    if f == "hex":
        return float(x).hex()
    if f == "%.0fe-1":
        return "%de-1" % (x * 10)
    if f == "0%.2f":
        return "%s0%.2f" % ("-" if x < 0 else "", abs(x))
    return f % x


FAR = {"J": ("(- %s 3000000000)", 3000000000),
       "K": ("(+ %s 50000000000.0)", -50000000000)}


def without(far, names):
    return {n: t for n, t in far.items() if n not in names}


def smt(s, far={}):
    """The text of a term.  far: the names of translated integers, which are
    written with the translation undone."""
    t = s[0]
    if t == "num":
        return _num(s[1], s[2])
    if t == "sym" and s[1] in far:
        return far[s[1]] % s[1]
    if t in ("lit", "sym", "def"):
        return s[1]
    if t == "let":
        return "(let (%s) %s)" % (
            " ".join("(%s %s)" % (n, smt(x, far)) for n, x in s[1]),
            smt(s[2], without(far, [n for n, _ in s[1]])))
    if t == "call":
        return "(%s %s)" % (s[1], " ".join(smt(x, far) for x in s[2]))
    if t == "forall":
        # several variables of one quantifier: nested ones, and ones not used
        vs, body, far = [], s, dict(far)
        while body[0] == "forall" and body[1] not in [v[0] for v in vs]:
            vs.append((body[1], body[2], "" if body[2] == "Bool" else
                       " [%d, %d]" % (body[3] // 4, body[4] // 4)))
            far.pop(body[1], None)
            body = body[5]
        txt = smt(body, far)
        if len(txt) % 3 == 0:
            vs.insert(len(txt) % 2, [("n_u", "Bool", ""), ("n_u", "Real", " [0, 1]"),
                                     ("n_u", "Int", " [1, 2]")][len(txt) // 3 % 3])
        return "(forall (%s) %s)" % (" ".join("(%s %s%s)" % v for v in vs), txt)
    if t == "fcmp":
        return "(%s (+ (* %s %s) %s) %s)" % (
            SMTREL[s[1]], _num(4 * s[2], 0),
            SMTF.get(s[3], "(%s {})" % s[3]).format(smt(s[4], far)), smt(s[5], far), _num(s[6], 0))
    a = [smt(x, far) for x in s[2]]
    if s[1] == "sq":
        return "(^ %s 2)" % a[0]
    if s[1] == "half":
        return "(/ %s 2)" % a[0]
    return "(%s %s)" % (OPS.get(s[1], s[1]), " ".join(a))


SMTF = dict(
    cube="(^ {} 3)", inv="(/ 1 {})", atan2y="(atan2 {} 0.5)", atan2x="(atan2 0.5 {})",
    pow="(^ (+ {} 3) 1.5)", abs3="(abs (- {} 0.5))", min1="(min {} 0.5)",
    max1="(max {} (- 0.5))", quot="(/ (+ {0} 1) (+ (^ {0} 2) 1))",
    pinv3="(^ {} (- 3))", pneg2="(^ {} (- 2))", quart="(^ {} 4)", exp2="(^ 2 {})",
    sinsq="(sin (^ {} 2))", expsin="(exp (sin {}))", logsq="(log (+ (^ {} 2) 1))",
    sqrtabs="(sqrt (abs {}))", tanhcos="(tanh (cos {}))", powself="(^ (+ {0} 3) {0})")
DRF = dict(
    cube="({})^3", inv="1/({})", atan2y="atan2({}, 0.5)", atan2x="atan2(0.5, {})",
    pow="({} + 3)^1.5", abs3="abs({} - 0.5)", min1="min({}, 0.5)",
    max1="max({}, -0.5)", quot="({0} + 1)/(({0})^2 + 1)",
    pinv3="({})^-3", pneg2="({})^(-2)", quart="({})^4", exp2="2^({})",
    sinsq="sin(({})^2)", expsin="exp(sin({}))", logsq="log(({})^2 + 1)",
    sqrtabs="sqrt(abs({}))", tanhcos="tanh(cos({}))", powself="({0} + 3)^({0})")
SMTREL = dict(lt="<", le="<=", eq="=", ge=">=", gt=">")


SORT = {"B": "Bool", "I": "Int", "J": "Int", "K": "Int", "N": "Binary", "R": "Real"}
CSORT = {"H": "Real", "Q": "Real", "F": "Bool"}
NOISE = ("; (check-sat) is no command\\n(set-info :k a) ; nor |this", "(set-info :status sat)",
         "(set-info :smt-lib-version 2.6)", "(set-logic QF_NRA)",
         "(set-info :a \"(check-sat)\")", "(set-info :source |a comment; (assert false)|)",
         "(set-info :notes 7)", ";;\\n;\\n(set-info :k 1.5)")


def command(h, far):
    """The judging part and the text of one command of Script."""
    k = h[0]
    if k == "decl":
        _, v, lo, hi, name, ty, st = h
        if ty in FAR:
            far[name] = FAR[ty][0]
            lo += FAR[ty][1]
            hi += FAR[ty][1]
        dom = "" if ty == "B" else " [%d, %d]" % (lo, hi)
        if dom and st == 2:
            dom = " [%.1f, (- %d)]" % (lo, -hi) if hi < 0 else " [%.1f, %.2f]" % (lo, hi)
        return h[:4], ("(declare-const %s %s%s)" if st == 1 else
                       "(declare-fun %s () %s%s)") % (name, SORT[ty], dom)
    if k == "assert":
        return h[:2], "(assert %s)" % smt(h[2], far)
    if k in ("push", "pop"):
        return h, "(%s %d)" % (k, h[1])
    if k == "check":
        return h, "(check-sat)"
    if k == "def":
        return h[:4], "(define-fun %s () %s %s)" % (h[1], CSORT[h[2]], smt(h[4], far))
    if k == "macro":
        return h[:1], "(define-fun %s (%s) %s %s)" % (
            h[1], " ".join("(%s %s)" % (n, CSORT[c]) for n, c in zip(h[2], h[3])),
            CSORT[h[4]], smt(h[5], without(far, h[2])))
    if k == "setopt":
        return h, "(set-option %s %s)" % (h[1], h[2])
    if k == "getopt":
        return h, "(get-option %s)" % h[1]
    if k == "value":
        return h[:2], "(get-value (%s))" % " ".join(smt(x, far) for x in h[2])
    if k == "model":
        return h, "(get-model)"
    assert k == "noise"
    return h, NOISE[h[1]]


LEVEL = {"+": (1, " + "), "-": (1, " - "), "*": (2, "*"), "half": (2, "/"),
         "imp": (1, " => "), "or": (2, " or "), "and": (3, " and ")}


def dr(s, need=0):
    """Infix text with as few parentheses as the precedences allow; operators
    with several operands associate to the left."""
    t, lv = _dr(s)
    return "(%s)" % t if lv < need else t


def _dr(s):
    if s[0] == "num":
        x = _num(abs(s[1]), s[2] if s[2] not in (2, 5) else 3)
        return ("-" + x, 3) if s[1] < 0 else (x, 5)
    if s[0] == "sym":
        return s[1], 5
    if s[0] == "lit":
        return ("0 <= 1" if s[1] == "true" else "1 < 0"), 5
    if s[0] == "fcmp":
        rel = OPS.get(s[1], s[1])
        return "%d*%s + %s %s %g" % (
            s[2], "(" + DRF.get(s[3], s[3] + "({})").format(dr(s[4])) + ")",
            dr(s[5], 2), rel, s[6] / 4), 5
    op, a = s[1], s[2]
    if op in ("abs", "min", "max"):
        return "%s(%s)" % (op, ", ".join(map(dr, a))), 5
    if op == "sq":
        return dr(a[0], 5) + "^2", 4
    if op == "half":
        return dr(a[0], 2) + "/2", 2
    if op in OPS and op not in ("imp", "iff", "iteb"):
        return "%s %s %s" % (dr(a[0]), OPS[op], dr(a[1])), 5
    if op == "not":
        return "not " + dr(a[0], 4), 4
    if op == "xor":
        x = a[0]
        for y in a[1:]:
            x = ["app", "or", [["app", "and", [x, ["app", "not", [y]]]],
                               ["app", "and", [["app", "not", [x]], y]]]]
        return _dr(x)
    if op == "iff":
        return _dr(["app", "or", [["app", "and", a], ["app", "and", [
            ["app", "not", [a[0]]], ["app", "not", [a[1]]]]]]])
    if op == "iteb":
        return _dr(["app", "and", [["app", "or", [["app", "not", [a[0]]], a[1]]],
                                   ["app", "or", [a[0], a[2]]]]])
    if op == "-" and len(a) == 1:
        return "-" + dr(a[0], 3), 3
    if len(a) == 1:
        return _dr(a[0])
    lv, txt = LEVEL[op]
    if op == "imp":
        return dr(a[0], 2) + txt + dr(a[1], 1), 1
    return txt.join([dr(a[0], lv)] + [dr(x, lv + 1) for x in a[1:]]), lv


def _dr_cases(c, cases):
    r = c.tlc("Script", cfg(
        init="SInit", next_="DrNext",
        invariants=["OneDecl", "Elaborated", "InStep", "SEmit"],
        constants=dict(Mix=7, L=6, Random="TRUE", Seed0=c.seed + 5,
                       Runs=c.q(500, 5000), Ite="FALSE", Quant="FALSE", Conf=0,
                       Scopes="FALSE", Fun="TRUE")))
    for h in r.lines:
        text = ["var:"]
        case = ["dr RR 0 %d" % len(cases)]
        for x in h:
            if x[0] == "decl":
                text.append("[%d, %d] %s;" % (x[2], x[3], x[4]))
                if x[2] == x[3]:
                    text[-1] = "%d %s;" % (x[2], x[4])
                case.append(sx(x[:4]) + " ;; # a comment: [")
            elif x[0] == "assert":
                if "ctr:" not in text:
                    text += ["# constraints", "ctr:"]
                text.append(dr(x[2]) + ";")
                case.append(sx(x[:2]) + " ;; ")
            else:
                case.append(sx(x) + " ;; " + "\\n".join(text))
        cases.append(case)


def c26(c):
    cases = []
    _dr_cases(c, cases)
    mixes = [2, 3, 4, 5, 6, 7, 8, 12, 13, 14]
    for k in mixes:
        r = c.tlc("Script", cfg(
            init="SInit", next_="SNext",
            invariants=["OneDecl", "Elaborated", "InStep", "SEmit"],
            properties=["PopRestores"],
            constants=dict(Mix=k, L=18, Random="TRUE", Seed0=c.seed + 89 * k,
                           Runs=c.q(2000, 20000) // len(mixes), Ite="TRUE",
                           Quant="TRUE", Conf=0, Scopes="TRUE", Fun="TRUE")))
        for h in r.lines:
            case = ["script %s %d %d" % (MIXES[k - 1], len(cases) % 3, len(cases))]
            far = {}
            for x in h:
                a, b = command(x, far)
                case.append(sx(a) + " ;; " + b)
            cases.append(case)
    c.samples.append(cases[-1])
    c.coverage["distinct_behaviours"] = len({tuple(x[1:]) for x in cases})
    st, _, _ = c.replay(_exe("script", smt2=True), cases, label="script", timeout=600)
    c.coverage.update(st)
