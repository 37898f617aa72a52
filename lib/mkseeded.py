"""Writes the table of planted bugs into DESIGN.md (run by hand)."""
import glob, json, os
FIRST = {  # what the first version of the check lacked
    "substitute-quick-exit": "conditions under if-then-else with Boolean keys",
    "derivative-shared-base": "products with a shared base",
    "abstractor-by-text": "atoms that print alike but differ",
    "clause-negated-compound": "negated compounds as clauses",
    "environment-duplicates": "equal names in initializer lists",
    "prefix-digits": "numerals of every magnitude",
    "term-substitute-nested": "nested substitution in terms",
    "signal-flags": "flags of the previous action",
    "explanation-one-pass": "chains of constraints",
    "pow-even": "boxes touching zero under even powers",
    "ite-exponent": "conditionals in exponents of factors of products",
    "infix-integer-digits": "numerals of every magnitude in infix text",
    "integer-witness": "boxes with several integers",
    "minimize-one-pass": "goals which other constraints reach by chains",
}
rows = ["| planted bug | caught by | needs | first missed: then added |", "|---|---|---|---|"]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "or"), FIRST.get(i, "")))
p = root + "/DESIGN.md"
s = open(p).read()
A, B = "<!-- seeded -->\n", "<!-- /seeded -->\n"
if A not in s:
    s = s.replace("SEEDED_TABLE\n", A + B)
s = s[:s.index(A) + len(A)] + "\n".join(rows) + "\n" + s[s.index(B):]
open(p, "w").write(s)
