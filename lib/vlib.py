"""Shared machinery of the checks: building the code under test, running TLC,
replaying specification behaviours in sharded harness processes, evidence."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
WORK = os.path.join(VERIF, ".work")
TLA_CP = ("/opt/veriftools/tla/tla2tools.jar:"
          "/opt/veriftools/tla/CommunityModules-deps.jar")
NCPU = max(1, min(8, os.cpu_count() or 1))
DRAKE = "third_party/com_github_robotlocomotion_drake/dreal/symbolic"

BASE_FLAGS = [
    "-std=c++14", "-O1", "-fPIC", "-fno-strict-aliasing", "-w", "-pthread",
    "-DFMT_DEPRECATED_OSTREAM=1", "-DFMT_HEADER_ONLY=1",
    "-DFMT_NO_FMT_STRING_ALIAS=1", "-DSPDLOG_FMT_EXTERNAL",
]


class CheckError(Exception):
    """The check itself could not run (exit status 2)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


# ----------------------------------------------------------------- building
def _headers_hash(extra_dirs=()):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "dreal"), os.path.join(REPO, "third_party")]
    roots += list(extra_dirs)
    for root in roots:
        for dp, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".h", ".hpp", ".hh", ".yy", ".ll", ".inc")):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


class Builder:
    def __init__(self, flags=(), sanitize=False, shim=False, opt=None):
        os.makedirs(BUILD, exist_ok=True)
        self.flags = list(BASE_FLAGS) + list(flags)
        if opt:
            self.flags = [f for f in self.flags if f != "-O1"] + [opt]
        self.shim = shim
        inc = ["-iquote", REPO, "-iquote", os.path.join(VERIF, "harness")]
        hdirs = [os.path.join(VERIF, "harness")]
        if shim:
            # The generated scanners use std::int64_t without its header.
            self.flags += ["-include", "cstdint"]
            inc += ["-isystem", os.path.join(VERIF, "shim"),
                    "-isystem", os.path.join(
                        REPO, "third_party/com_github_pinam45_dynamic_bitset"),
                    "-isystem", os.path.join(
                        REPO, "third_party/com_github_progschj_threadpool"),
                    "-isystem", os.path.join(
                        REPO, "third_party/com_github_tartanllama_optional"),
                    "-isystem", os.path.join(
                        REPO, "third_party/com_github_westes_flex"),
                    "-isystem", "/usr/include/picosat"]
            hdirs.append(os.path.join(VERIF, "shim"))
        inc += ["-isystem", os.path.join(
            REPO, "third_party/com_github_robotlocomotion_drake")]
        self.inc = inc
        if sanitize:
            self.flags += ["-fsanitize=address,undefined",
                           "-fno-sanitize-recover=undefined", "-g"]
        self.hh = _headers_hash(hdirs)

    def gen_parsers(self):
        """flex/bison outputs of the current tree, in our own build folder."""
        key = hashlib.sha256(self.hh.encode()).hexdigest()[:16]
        gen = os.path.join(BUILD, "gen-" + key)
        done = os.path.join(gen, ".done")
        if not os.path.exists(done):
            for d in ("smt2", "dr"):
                o = os.path.join(gen, "dreal", d)
                os.makedirs(o, exist_ok=True)
                for cmd in (
                    ["bison", "-Wno-deprecated", "-o", o + "/parser.yy.cc",
                     "%s/dreal/%s/parser.yy" % (REPO, d)],
                    ["flex", "-o", o + "/scanner.ll.cc",
                     "%s/dreal/%s/scanner.ll" % (REPO, d)]):
                    r = sh(cmd)
                    if r.returncode:
                        raise CheckError("parser generation: " + r.stdout)
            with open(os.path.join(gen, "dreal", "version.h"), "w") as f:
                f.write('#pragma once\n#include <string>\n'
                        '#define DREAL_VERSION_STRING "4.21.06.2"\n'
                        'namespace dreal { inline std::string get_version_string()'
                        ' { return "4.21.06.2"; } }\n')
            open(done, "w").close()
        self.inc = ["-iquote", gen] + [i for i in self.inc]
        return gen

    def obj(self, src):
        with open(src, "rb") as f:
            body = f.read()
        cmd = ["g++"] + self.flags + self.inc + ["-c", src]
        key = hashlib.sha256(
            ("\0".join(cmd) + self.hh).encode() + body).hexdigest()[:32]
        out = os.path.join(BUILD, key + ".o")
        if not os.path.exists(out):
            tmp = "%s.%d.tmp" % (out, os.getpid())
            r = sh(cmd + ["-o", tmp])
            if r.returncode:
                raise CheckError("compile %s:\n%s" % (src, r.stdout[-6000:]))
            os.rename(tmp, out)
        return out

    def objs(self, srcs):
        with ThreadPoolExecutor(NCPU) as ex:
            return list(ex.map(self.obj, srcs))

    def link(self, name, srcs, libs=()):
        # Biggest sources first so that the parallel build is balanced.
        srcs = sorted(srcs, key=lambda s: -os.path.getsize(s))
        objs = self.objs(srcs)
        key = hashlib.sha256(
            " ".join(sorted(objs) + self.flags + list(libs)).encode()
        ).hexdigest()[:24]
        out = os.path.join(BUILD, name + "-" + key)
        if not os.path.exists(out):
            tmp = "%s.%d.tmp" % (out, os.getpid())
            san = [f for f in self.flags if f.startswith("-fsanitize")]
            r = sh(["g++"] + san + ["-o", tmp] + objs + list(libs) +
                   ["-pthread"])
            if r.returncode:
                raise CheckError("link %s:\n%s" % (name, r.stdout[-6000:]))
            os.rename(tmp, out)
        return out


def prune_build_cache(limit=1500 * 1024 * 1024):
    """Keep the object cache bounded (least recently used goes first)."""
    try:
        ents = []
        for f in os.listdir(BUILD):
            p = os.path.join(BUILD, f)
            if os.path.isfile(p):
                st = os.stat(p)
                ents.append((st.st_mtime, st.st_size, p))
        tot = sum(e[1] for e in ents)
        for _, s, p in sorted(ents):
            if tot <= limit:
                break
            os.unlink(p)
            tot -= s
    except OSError:
        pass


def rp(*parts):
    return os.path.join(REPO, *parts)


def drake_sources():
    d = rp(DRAKE)
    return [os.path.join(d, f) for f in sorted(os.listdir(d))
            if f.endswith(".cc")]


def symbolic_sources():
    d = rp("dreal/symbolic")
    return drake_sources() + [
        os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cc")]


# IBEX-free part of dreal/util.  Every .cc directly in the folder is taken, so
# that code moved between files keeps linking; the IBEX users are left out.
_IBEX_UTIL = {"box.cc", "interval.cc", "ibex_converter.cc",
              "string_to_interval.cc"}


def util_sources(ibex=False):
    d = rp("dreal/util")
    return [os.path.join(d, f) for f in sorted(os.listdir(d))
            if f.endswith(".cc") and (ibex or f not in _IBEX_UTIL)]


SOLVER_LIBS = ["-lpicosat", "-lnlopt_cxx", "-lgmpxx", "-lgmp", "-lcds",
               "-lspdlog", "-lfmt"]


def solver_sources(builder=None):
    """The whole solver; it needs a Builder with shim=True."""
    out = symbolic_sources() + util_sources(ibex=True)
    for d in ("contractor", "solver", "optimization", "api"):
        d = rp("dreal", d)
        out += [os.path.join(d, f) for f in sorted(os.listdir(d))
                if f.endswith(".cc")]
    d = rp("dreal/smt2")
    out += [os.path.join(d, f) for f in sorted(os.listdir(d))
            if f.endswith(".cc") and f not in ("driver.cc", "run.cc")]
    d = rp("third_party/com_github_progschj_threadpool/ThreadPool")
    out += [os.path.join(d, f) for f in sorted(os.listdir(d))
            if f.endswith(".cc")]
    out.append(os.path.join(VERIF, "shim", "ibex.cc"))
    return out


# --------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self):
        self.out = ""
        self.rc = None
        self.states = 0
        self.distinct = 0
        self.lines = []      # decoded "@@..." records
        self.violated = None  # name of a violated invariant/property
        self.error = None
        self.wall = 0.0


def run_tlc(check, module, cfg_text, workers=None, heap="6g", timeout=600,
            extra=(), env=None, files=None, simulate=None):
    """Runs TLC on /verif/spec/<module>.tla in a scratch copy of the specs."""
    n = check.next_id()
    wd = os.path.join(check.work, "tlc-%s-%d" % (module, n))
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    spec = os.path.join(VERIF, "spec")
    for f in os.listdir(spec):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(spec, f), wd)
    for name, text in (files or {}).items():
        with open(os.path.join(wd, name), "w") as f:
            f.write(text)
    with open(os.path.join(wd, module + ".cfg"), "w") as f:
        f.write(cfg_text)
    jtmp = os.path.join(wd, "tmp")
    os.makedirs(jtmp)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC",
           "-Djava.io.tmpdir=" + jtmp,
           "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers or NCPU),
           "-noGenerateSpecTE", "-metadir", os.path.join(wd, "states"),
           "-config", module + ".cfg"] + list(extra)
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    outp = os.path.join(wd, "out.txt")
    with open(outp, "w") as fo:
        try:
            p = subprocess.run(cmd, cwd=wd, stdout=fo,
                               stderr=subprocess.STDOUT, env=e,
                               timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    res = TlcResult()
    res.wall = time.time() - t0
    res.rc = rc
    res.dir = wd
    rest = []
    with open(outp, errors="replace") as fi:
        for line in fi:
            if line.startswith('"@@'):
                try:
                    s = json.loads(line)
                    res.lines.append(json.loads(s[2:]))
                except ValueError:
                    raise CheckError("bad record from TLC: " + line[:300])
            else:
                rest.append(line)
    res.out = "".join(rest)
    m = re.findall(r"(\d+) states generated, (\d+) distinct", res.out)
    if m:
        res.states, res.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.search(r"Invariant (\S+) is violated", res.out)
    if m:
        res.violated = m.group(1)
    m = re.search(r"(?:Action|Temporal) propert\S+ (\S*).*violated", res.out)
    if m and not res.violated:
        res.violated = m.group(1) or "temporal"
    if rc == -1:
        res.error = "timeout after %ds" % timeout
    elif rc != 0 and not res.violated:
        res.error = "TLC exit %d: %s" % (rc, res.out[-3000:])
    shutil.rmtree(os.path.join(wd, "states"), ignore_errors=True)
    shutil.rmtree(jtmp, ignore_errors=True)
    check.tlc_states += res.distinct
    check.tlc_transitions += res.states
    return res


# ------------------------------------------------------------------- checks
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.work = os.path.join(WORK, prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self._id = 0
        self.tlc_states = 0
        self.tlc_transitions = 0
        self.traces = 0
        self.violations = []
        self.known_hits = {}
        self.coverage = {}
        self.samples = []
        self.assumptions = []
        self.known = load_known(prop)

    def q(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def next_id(self):
        self._id += 1
        return self._id

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a)
        sys.stdout.flush()

    def violation(self, what, text):
        """text: the full reproduction (case, expected, got)."""
        for k in self.known:
            if all(s in text or s in what for s in k["match"]):
                self.known_hits.setdefault(k["what"], 0)
                self.known_hits[k["what"]] += 1
                return
        n = len(self.violations)
        path = os.path.join(self.work, "replay-%d.txt" % n)
        if n < 20:
            with open(path, "w") as f:
                f.write(what + "\n" + text + "\n")
        self.violations.append((what, path))

    def tlc(self, module, cfg, must_hold=True, **kw):
        r = run_tlc(self, module, cfg, **kw)
        self.log("TLC %s: %d states, %d distinct, %d records, %.1fs%s" % (
            module, r.states, r.distinct, len(r.lines), r.wall,
            " VIOLATED " + r.violated if r.violated else ""))
        if r.error:
            raise CheckError("TLC %s: %s" % (module, r.error))
        if must_hold and r.violated:
            raise CheckError("the specification %s violates its own %s:\n%s" %
                             (module, r.violated, r.out[-4000:]))
        return r

    def replay(self, binary, cases, timeout=300, shards=None, env=None,
               label="case"):
        """Replays cases (each a list of text lines) in the harness.

        Protocol: the harness reads 'BEGIN <n>' ... 'END' blocks on stdin,
        prints 'FAIL <n> <text>' for a divergence from the specification and
        'OK <n>' otherwise (plus free 'STAT k v' lines).  A process that dies
        is a divergence of the case it was running, confirmed by a re-run.
        """
        shards = shards or NCPU
        idx = list(range(len(cases)))
        parts = [idx[i::shards] for i in range(shards)]
        stats = {}
        fails = []

        def feed(ids):
            return "".join("BEGIN %d\n%s\nEND\n" % (i, "\n".join(cases[i]))
                           for i in ids)

        def run_ids(ids, tmo):
            e = dict(os.environ)
            e.update(env or {})
            try:
                p = subprocess.run([binary], input=feed(ids), text=True,
                                   stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=tmo,
                                   errors="replace", env=e, cwd=self.work)
                return p.stdout, p.stderr, p.returncode
            except subprocess.TimeoutExpired as ex:
                o = ex.stdout or b""
                return (o.decode(errors="replace") if isinstance(o, bytes)
                        else o), "timeout", -999

        slow = []               # cases that ran into the harness' time limit
        too_many = 30 + len(cases) // 50

        def work(ids):
            out_f, out_s, nok, pend = [], {}, 0, list(ids)
            last = None
            out_t = []
            crashes = 0
            while pend:
                o, err, rc = run_ids(pend, timeout)
                done = set()
                for line in o.splitlines():
                    w = line.split(" ", 2)
                    if w[0] == "OK" and len(w) > 1:
                        last = int(w[1])
                        done.add(last)
                        nok += 1
                    elif w[0] == "FAIL" and len(w) > 1:
                        done.add(int(w[1]))
                        out_f.append((int(w[1]), w[2] if len(w) > 2 else ""))
                    elif w[0] == "TRACE":
                        out_t.append(line[6:])
                    elif w[0] == "STAT" and len(w) > 2:
                        out_s[w[1]] = out_s.get(w[1], 0) + int(w[2])
                        if w[1] == "slow" and last is not None:
                            slow.append(last)
                rest = [i for i in pend if i not in done]
                if not rest:
                    break
                if len(slow) > too_many:
                    break
                if rc == 4 and len(done):
                    pend = rest     # a case that would take too long
                    continue
                if rc == 3 and len(done):
                    # stopped on purpose after reporting a divergence
                    crashes += 1
                    pend = rest
                    if crashes > 5:
                        break
                    continue
                # died (or hung) on rest[0]: confirm on its own
                bad = rest[0]
                o2, err2, rc2 = run_ids([bad], min(timeout, 60))
                if rc2 == 0 and ("OK %d" % bad) in o2:
                    # not reproducible alone: run it with its predecessors
                    k = ids.index(bad)
                    o3, err3, rc3 = run_ids(ids[:k + 1], timeout)
                    if rc3 == 0 and ("OK %d" % bad) in o3:
                        nok += 1
                    else:
                        out_f.append((bad, "the code died or hung "
                                      "(status %s): %s" % (rc3, err3[-800:])))
                else:
                    m = [l for l in o2.splitlines() if l.startswith("FAIL")]
                    out_f.append((bad, m[0] if m else
                                  "the code died or hung (status %s): %s" %
                                  (rc2, err2[-800:])))
                crashes += 1
                pend = rest[1:]
                if crashes > 5:
                    break
            return out_f, out_s, nok, out_t

        ok = 0
        self.traces_out = []
        with ThreadPoolExecutor(shards) as ex:
            for f, s, n, t in ex.map(work, [p for p in parts if p]):
                fails += f
                self.traces_out += t
                ok += n
                for k, v in s.items():
                    stats[k] = stats.get(k, 0) + v
        if len(slow) > too_many:
            # So many cannot be the odd hard problem: ask some again, with
            # plenty of time each.
            def again(i):
                e = dict(env or {}, SOLVE_SECONDS="40")
                e = dict(os.environ, **e)
                try:
                    o = subprocess.run([binary], input=feed([i]), text=True,
                                       stdout=subprocess.PIPE,
                                       stderr=subprocess.DEVNULL,
                                       timeout=120, errors="replace", env=e,
                                       cwd=self.work).stdout
                except subprocess.TimeoutExpired:
                    return True
                return "STAT slow" in o
            some = sorted(slow)[::max(1, len(slow) // NCPU)][:NCPU]
            with ThreadPoolExecutor(NCPU) as ex:
                still = [i for i, x in zip(some, ex.map(again, some)) if x]
            if 2 * len(still) >= len(some):
                fails += [(i, "no answer within 40 seconds (%d of these %ss "
                           "gave none in the usual time)" %
                           (len(slow), label)) for i in still]
        fails.sort()
        for i, why in fails:
            self.violation("%s %d: %s" % (label, i, why),
                           "\n".join(cases[i]) + "\n-- " + why)
        self.traces += ok
        self.log("replayed %d %ss: %d agree, %d diverge" %
                 (len(cases), label, ok, len(fails)))
        if not cases:
            raise CheckError("nothing to replay: " + label)
        return stats, ok, fails

    def finish(self):
        cov = dict(self.coverage)
        cov.setdefault("states", self.tlc_states)
        cov.setdefault("transitions", self.tlc_transitions)
        cov.setdefault("traces_validated_against_impl", self.traces)
        cov.setdefault("samples", self.samples[:4])
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": self.level, "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"),
                  "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, n in self.known_hits.items():
            print("KNOWN-FINDING: property=%s %s (%d cases)" %
                  (self.prop, k, n))
        prune_build_cache()
        if self.violations:
            for what, path in self.violations[:5]:
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  " + what[:600])
            if len(self.violations) > 5:
                print("  ... %d violations in all" % len(self.violations))
            return 1
        self.log("held on everything explored")
        return 0


def load_known(prop):
    """known_findings.txt lines:
    KNOWN property=<id> match=<json list of substrings> what=<text>
    fixed: property=<id> <commit> <text>   (suppresses nothing)"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r"KNOWN property=(\S+) match=(\[.*?\]) what=(.*)",
                             line)
                if m and m.group(1) == prop:
                    res.append({"match": json.loads(m.group(2)),
                                "what": m.group(3).strip()})
    return res


def main(prop, fn, level="model_checking"):
    c = None
    try:
        c = Check(prop, level)
        fn(c)
        return c.finish()
    except CheckError as e:
        print("CHECK-ERROR property=%s: %s" % (prop, e))
        if c is not None and c.violations:
            return c.finish()
        return 2


def cfg(spec="Spec", invariants=(), constants=None, constraint=None,
        properties=(), deadlock=False, postcondition=None, view=None,
        init=None, next_=None):
    out = []
    if init:
        out += ["INIT " + init, "NEXT " + next_]
    else:
        out.append("SPECIFICATION " + spec)
    for i in invariants:
        out.append("INVARIANT " + i)
    for p in properties:
        out.append("PROPERTY " + p)
    for k, v in (constants or {}).items():
        out.append("CONSTANT %s = %s" % (k, v))
    if constraint:
        out.append("CONSTRAINT " + constraint)
    if view:
        out.append("VIEW " + view)
    if postcondition:
        out.append("POSTCONDITION " + postcondition)
    out.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    return "\n".join(out) + "\n"
