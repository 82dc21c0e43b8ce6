#!/usr/bin/env python3
"""Decides one property: check.py ID  (VERIF_TIER, VERIF_SEED from the environment).

1. extracts the functions of every unit of the property from /repo's current sources
   (vx) and has Verus discharge their contracts;
2. builds the harness against /repo and searches for a failing input (the bounded
   stand-in, and the source of replayable counterexamples);
3. combines both into a verdict and writes evidence/<ID>.json.
"""
import json, os, re, shutil, subprocess, sys, threading, time

import literals

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
T = os.path.join(VERIF, "target")
ID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if len(sys.argv) > 2:
    TIER = sys.argv[2]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
W = os.path.join(T, "check", ID)
T0 = time.time()
LIMIT = 840 if TIER == "quick" else 7200


def left():
    return LIMIT - (time.time() - T0)


def sh(cmd, env=None, cwd=None, timeout=None, pre=None):
    """run, return (rc, stdout, stderr); rc is None on a timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
                         start_new_session=True, preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, e = p.communicate()
        return None, o.decode(errors="replace"), e.decode(errors="replace")


def base_env():
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def repo_env():
    """the environment /repo is built in"""
    e = base_env()
    if os.path.exists("/opt/vp/env.sh"):
        rc, o, _ = sh(["bash", "-c", ". /opt/vp/env.sh && env -0"], env=e)
        if rc == 0:
            e = dict(kv.split("=", 1) for kv in o.split("\0") if "=" in kv)
    return e


# ---------------------------------------------------------------- building

def build_vx():
    e = base_env()
    e["CARGO_TARGET_DIR"] = os.path.join(T, "vx")
    rc, _, err = sh(["cargo", "build", "--offline", "--release", "-q"], env=e,
                    cwd=os.path.join(VERIF, "vx"), timeout=600)
    if rc != 0:
        raise RuntimeError("vx does not build: " + err[-2000:])
    return os.path.join(T, "vx/release/vx")


def build_harness():
    d = os.path.join(T, "harness")
    if not os.path.isdir(os.path.join(d, "debug")):
        # the dependencies /repo has already built are reused; its own crates never are
        src = os.path.join(REPO, "target", "debug")
        if os.path.isdir(src):
            os.makedirs(d, exist_ok=True)
            subprocess.call(["cp", "-a", src, d + "/"], stderr=subprocess.DEVNULL)
            fp = os.path.join(d, "debug", ".fingerprint")
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith("bulloak"):
                        shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
            shutil.rmtree(os.path.join(d, "debug", "incremental"), ignore_errors=True)
    e = repo_env()
    e["CARGO_TARGET_DIR"] = d
    cmd = ["cargo", "build", "--offline", "-q"]
    rc, _, err = sh(cmd, env=e, cwd=os.path.join(VERIF, "harness"), timeout=700)
    if rc != 0 and "error[E" not in err and "error: " in err:
        # a broken build directory, e.g. from another toolchain: once more from scratch
        shutil.rmtree(d, ignore_errors=True)
        rc, _, err = sh(cmd, env=e, cwd=os.path.join(VERIF, "harness"), timeout=700)
    if rc != 0:
        return None, err[-3000:]
    return os.path.join(d, "debug"), ""


# ---------------------------------------------------------------- the proof

FAILED = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied",
          "assertion failed", "possible arithmetic", "possible division", "decreases not satisfied",
          "could not prove termination", "unable to prove", "assert_by", "possible bit shift",
          "requires not satisfied", "cannot show", "recommendation not met", "decreases clause")


def parse_errors(stderr):
    """[(message, [lines of all spans in the generated file], text)]"""
    out = []
    for block in re.split(r"\n(?=error|note|warning)", "\n" + stderr):
        block = block.strip("\n")
        m = re.match(r"error(\[E\d+\])?: (.*)", block)
        if not m or m.group(2).startswith("aborting due"):
            continue
        lines = [int(x) for x in re.findall(r"--> [^\n:]+\.rs:(\d+):", block)]
        lines += [int(x) for x in re.findall(r"\n\s*(\d+) +\|", block)]
        out.append((m.group(2), lines, block[:3000], bool(m.group(1))))
    return out


def run_verus(rs, rlimit, seed=None, threads=4):
    e = base_env()
    cmd = ["verus", rs, "--output-json", "--time", "--multiple-errors", "2", "--triggers-mode", "silent",
           "--rlimit", str(rlimit), "--num-threads", str(threads)]
    if seed is not None:
        cmd += ["--smt-option", "smt.random_seed=%d" % seed]
    rc, o, err = sh(cmd, env=e, cwd=os.path.dirname(rs), timeout=max(30, min(600, left() - 30)))
    try:
        j = json.loads(o[o.index("{"):])
    except ValueError:
        j = {}
    return rc, j, err, " ".join(cmd)


INDUCTIVE = {}


def std_table():
    """contracts/std.vrs -> {name: (declarations, [broadcast axioms])}"""
    out, text = {}, open(os.path.join(VERIF, "contracts/std.vrs")).read()
    out["patterns"] = (text.split("//@@ patterns\n")[1].split("//@@ ")[0], [])
    for e in text.split("//@@ std ")[1:]:
        ls = e.split("\n")
        ax = [w for l in ls[1:] if l.startswith("//@@ broadcast ") for w in l.split()[2:]]
        INDUCTIVE[ls[0].strip()] = "//@@ inductive" in ls
        out[ls[0].strip()] = ("\n".join(l for l in ls[1:] if not l.startswith("//@@")), ax)
    return out


STD_HEAD = """
pub mod vx_std {
use vstd::prelude::*;
#[allow(unused_imports)]
use crate::common::*;
#[allow(unused_imports)]
use vstd::std_specs::iter::IteratorSpec;
verus! {
pub open spec fn ascii_low(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
pub open spec fn ascii_up(c: char) -> char { if 'a' <= c && c <= 'z' { ((c as u32 - 32) as u8) as char } else { c } }
"""


def run_verus_std(rs, rlimit, fns, lost, used):
    """run_verus; functions of std the unit has no contract for are given the one of contracts/std.vrs, or none"""
    text, table, have = open(rs).read(), std_table(), {}
    while True:
        rc, j, err, cmd = run_verus(rs, rlimit)
        new = {}
        for msg, lines, block, _ in parse_errors(err):
            m = re.match(r"`(\S+)` is not supported \(note: you may be able to add a Verus spec", msg)
            if not m or m.group(1) in have or m.group(1) in new:
                continue
            name = m.group(1)
            if name in table:
                new[name] = table[name]
                used.append(name + " (contracts/std.vrs)")
                continue
            d = re.search(r"following declaration may resolve this error:\n(.*?;)", block, re.S)
            f = fn_at(fns, lines)
            if d and f:
                decl = d.group(1)
                for a, b in (("impl str", "str"), ("impl char", "char"), (r"impl \[T\]", "<[T]>"),
                             (r"impl ([iu](?:8|16|32|64|128|size))", r"\1"), ("impl bool", "bool")):
                    decl = re.sub(r"(?:\w+::)+<%s>::" % a, b + "::", decl)
                if "'a" in decl and "<'a" not in decl.split("[")[0]:
                    decl = re.sub(r"<P as ([\w:]*)Pattern>::Searcher<'a>:", r"for<'a> <P as \1Pattern>::Searcher<'a>:", decl)
                new[name] = (decl, [])
                lost[f["path"]] = "calls %s, which has no contract" % name
                used.append(name + " (no contract)")
        if not new or left() < 120:
            return rc, j, err, cmd
        have.update(new)
        ax = ["crate::vx_std::" + a for a in dict.fromkeys(a for _, axs in have.values() for a in axs)]
        t = "#![feature(pattern, allocator_api)] #![allow(unused_features)] " + text
        if ax:
            # every module has at most one such declaration
            k = t.index("\nverus! {", t.index("// mod common")) + len("\nverus! {")
            head, rest = t[:k], t[k:]
            if "broadcast use {" not in rest[:400]:
                head += " broadcast use {%s};" % ", ".join(ax)
            t = head + rest.replace("broadcast use {", "broadcast use {%s, " % ", ".join(ax))
        pats = [table["patterns"][0]] if any("ax_lit_str" in axs for _, axs in have.values()) else []
        t += STD_HEAD + "\n".join(pats + [d for d, _ in have.values()]) + "\n}\n}\n"
        open(rs, "w").write(t)


def fn_at(fns, lines):
    for l in lines:
        for f in fns:
            if f.get("start", 0) <= l <= f.get("end", -1):
                return f
    return None


def check_unit(vx, unit, only):
    """-> dict with status proved | failed | undecided"""
    rs, js = os.path.join(W, unit + ".rs"), os.path.join(W, unit + ".json")
    u = {"unit": unit, "status": "undecided", "why": [], "failed": [], "verified": 0, "errors": 0}
    rc, o, e = sh([vx, REPO, os.path.join(VERIF, "contracts"), unit, rs, js], timeout=120)
    if rc != 0:
        u["why"].append("extraction: " + (e.strip().splitlines() or ["?"])[0][:300])
        return u
    fns = json.load(open(js))["fns"]
    shapes = json.load(open(os.path.join(VERIF, "contracts/shapes.json"))).get(unit, {})
    lost = {}
    for f in fns:
        if f.get("error"):
            lost[f["path"]] = f["error"]
        elif f.get("missing") or f.get("unsupported"):
            lost[f["path"]] = "; ".join(f.get("missing", []) + f.get("unsupported", []))
        elif not f["stub"] and shapes.get(f["path"], f.get("shape")) != f.get("shape"):
            lost[f["path"]] = "loops or closures changed"
    u["functions"] = [f["path"] for f in fns if not f["stub"] and not f.get("error")]
    u["stubs"] = ["%s (contract proved by unit %s)" % (f["path"], f["from"]) if f.get("from") else
                  "%s (contract assumed)" % f["path"] for f in fns if f["stub"]]
    u["lost"] = lost
    text = open(rs).read()
    own = text.split("\n")
    for f in fns:
        if f["stub"] and f.get("from"):
            own[f["start"] - 1:f["end"]] = [""] * (f["end"] - f["start"] + 1)
    u["trusted"] = trusted("\n".join(own))
    added = []
    rc, j, err, cmd = run_verus_std(rs, 20, fns, lost, added)
    u["trusted"] += ["assumed specification " + a for a in added]
    u["cmd"] = cmd
    vr = j.get("verification-results", {})
    errs = parse_errors(err)
    if "verified" not in vr or vr.get("encountered-vir-error") or any(x[3] for x in errs) or rc is None:
        u["why"].append("not accepted by the verifier's front end: " +
                        (errs[0][0] if errs else (err.strip()[-300:] or "timeout")))
        u["log"] = err[-3000:]
        return u
    def hopeless(errs):
        # every failure is in a function whose loops or closures were rewritten: nothing depends on it
        fs = [fn_at(fns, l) for _, l, _, _ in errs]
        return bool(fs) and all(f and f["path"] in lost for f in fs)
    if vr.get("errors") and not hopeless(errs):
        # again, with more resources and another seed, before anything is believed
        for seed, rl in ((None, 60), (17, 100)):
            if left() < 200:
                break
            rc2, j2, err2, _ = run_verus(rs, rl, seed, 8)
            v2 = j2.get("verification-results", {})
            if "verified" in v2 and v2.get("errors", 1) < vr.get("errors"):
                j, vr, errs = j2, v2, parse_errors(err2)
            if not vr.get("errors"):
                break
    u["verified"], u["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    t = j.get("times-ms", {})
    u["smt_ms"] = (t.get("smt") or {}).get("smt-run", 0) if isinstance(t, dict) else 0
    if not vr.get("errors"):
        u["status"] = "proved" if not lost else "undecided"
        u["why"] += ["%s: %s" % kv for kv in lost.items()]
        if not u["verified"]:
            u["status"], u["why"] = "undecided", ["no obligations"]
        return u
    real = False
    weak = [a.split(" ")[0].split("::")[-1] for a in added if INDUCTIVE.get(a.split(" ")[0])]
    body = open(rs).read().split("\n")
    for msg, lines, block, _ in errs:
        f = fn_at(fns, lines)
        name = f["path"] if f else "(lemma)"
        if only != "*" and f and name not in only:
            continue
        rec = {"function": name, "obligation": msg, "source": f and "%s:%s" % (f.get("file"), f.get("line")),
               "output": block}
        u["failed"].append(rec)
        if any(k in msg for k in FAILED) and f and name not in lost and not f["stub"]:
            real = True
            rec["decided"] = True
            code = "\n".join(body[f["start"] - 1:f["end"]])
            if any(re.search(r"\b%s\s*\(" % w, code) for w in weak):
                rec["needs_an_input"] = True
        else:
            u["why"].append("%s: %s" % (name, msg[:120]))
    u["why"] += ["%s: %s" % kv for kv in lost.items()]
    if not u["failed"]:
        u["status"] = "proved"
    elif real:
        u["status"] = "failed"
    return u


def probe(vx, u):
    """vacuity: `assert(false)` at the start of every function under contract has to fail"""
    unit = u["unit"]
    rs, js = os.path.join(W, unit + "_probe.rs"), os.path.join(W, unit + "_probe.json")
    e = dict(os.environ, VX_PROBE="1")
    rc, _, _ = sh([vx, REPO, os.path.join(VERIF, "contracts"), unit, rs, js], env=e, timeout=120)
    if rc != 0:
        return
    fns = [f for f in json.load(open(js))["fns"] if not f["stub"] and not f.get("error")]
    rc, j, err, _ = run_verus_std(rs, 10, fns, {}, [])
    hit = set()
    for msg, lines, _, _ in parse_errors(err):
        f = fn_at(fns, lines)
        if f and ("assertion failed" in msg or "Resource limit" in msg):
            hit.add(f["path"])
    u["probed"] = len(fns)
    u["vacuous"] = [f["path"] for f in fns if f["path"] not in hit]


TRUST = re.compile(r"assume_specification[^;{]*?\[\s*([^\]]+?)\s*\]|"
                   r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:const )?(?:proof )?(?:broadcast )?(?:proof )?(?:fn|struct|enum)\s+(\w+)|"
                   r"(?:broadcast )?axiom fn\s+(\w+)|\b(assume\([^;]*|admit\(\))|"
                   r"#\[verifier::external_type_specification\][^;{]*?struct\s+(\w+)|"
                   r"uninterp spec fn\s+(\w+)")


def trusted(text):
    # comments out
    text = re.sub(r"//[^\n]*", "", text)
    out = []
    for m in TRUST.finditer(text):
        kind = ["assumed specification", "trusted (external_body)", "axiom", "assume", "external type",
                "uninterpreted"]
        for k, g in zip(kind, m.groups()):
            if g:
                out.append("%s %s" % (k, " ".join(g.split())))
    return sorted(set(out))


# ---------------------------------------------------------------- the harness

def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


try:
    DICT = literals.new(REPO)
except Exception:
    DICT = ([], [])


def run_harness(bins, tier, seed, budget, tag, trace=False, pid=ID):
    scratch = os.path.join(W, "scratch")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    rep, replay = os.path.join(W, "report-%s.json" % tag), os.path.join(W, "replay-%s.json" % tag)
    for f in (rep, replay):
        if os.path.exists(f):
            os.remove(f)
    env = dict(base_env(), VH_BIN=os.path.join(bins, "bulloak"), VH_SCRATCH=scratch, NO_COLOR="1")
    if DICT[0] or DICT[1]:
        env["VH_DICT"] = json.dumps(DICT)
    cmd = [os.path.join(bins, "vharness"), "run", pid, "--tier", tier, "--seed", str(seed), "--out", rep,
           "--replay", replay, "--budget", str(budget)]
    tr = os.path.join(W, "trace.json")
    if trace:
        cmd += ["--trace", tr]
    rc, o, e = sh(cmd, env=env, cwd=scratch, timeout=budget + 150, pre=limits)
    shutil.rmtree(scratch, ignore_errors=True)
    r = {"tier": tier, "seed": seed, "budget_s": budget, "rc": rc}
    if DICT[0] or DICT[1]:
        r["literals_not_in_the_tree_built_for"] = DICT
    if os.path.exists(rep):
        r.update(json.load(open(rep)))
    if rc == 0:
        return r, None
    if rc == 1 and os.path.exists(replay):
        return r, replay
    if not trace:
        # it died: once more on one thread, writing down every case before it runs
        r2, rp = run_harness(bins, tier, seed, min(4 * budget + 60, max(60, left() - 60)), tag, trace=True, pid=pid)
        if rp:
            return r2, rp
        r["died"] = "rc=%s %s" % (rc, e[-500:])
        return r, None
    if rc not in (0, 1) and os.path.exists(tr):
        d = json.load(open(tr))
        d["violation"] = "the program died (%s) %s" % (rc, e[-300:])
        json.dump(d, open(replay, "w"), ensure_ascii=False, indent=1)
        return r, replay
    return r, None


def check_axioms(bins):
    """what the contracts assume about std, regex, solang and the Unicode tables, checked on the libraries
    themselves: exhaustive over characters, bounded over texts (labelled so)"""
    out = os.path.join(W, "axioms.json")
    rc, o, e = sh([os.path.join(bins, "vharness"), "axioms", out], timeout=120)
    rows = json.load(open(out)) if os.path.exists(out) else []
    return {"refuted": "" if rc == 0 else (o + e)[:500] or "no answer", "checked": rows}


def known_findings(bins):
    """demonstrates the listed findings of this property; prints a line for each that is still there"""
    out = []
    for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"finding: property=(\w+) id=(\S+) (.*)", l.strip())
        if not m or m.group(1) != ID:
            continue
        fid, what = m.group(2), m.group(3)
        there = False
        if fid == "deep-nesting" and bins:
            rc, _, _ = sh([os.path.join(bins, "vharness"), "deep", "200000"], timeout=120, pre=limits)
            there = rc != 0
        if fid == "deep-nesting-batch" and bins:
            d = os.path.join(W, "known")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, "deep.tree"), "w") as f:
                f.write("Foo\n└ " + " └ ".join("when x%d" % i for i in range(20000)) + " └ it b\n")
            rc, _, _ = sh([os.path.join(bins, "bulloak"), "scaffold", "deep.tree"], cwd=d, timeout=120, pre=limits)
            there = rc not in (0, 1)
            shutil.rmtree(d, ignore_errors=True)
        if fid == "injected-name" and bins:
            d = os.path.join(W, "known")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, "x.tree"), "w") as f:
                f.write("Foo::a(){}function/**/b\n└── It works.\n\n\nFoo::b\n└── It works.\n")
            rc, o, _ = sh([os.path.join(bins, "bulloak"), "scaffold", "x.tree"], cwd=d, timeout=120, pre=limits)
            there = rc == 0 and "function bWorks" in o
            shutil.rmtree(d, ignore_errors=True)
        if there:
            print("KNOWN-FINDING: property=%s %s" % (ID, what), flush=True)
            out.append(fid)
    return out


# ---------------------------------------------------------------- verdict

def main():
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    units = json.load(open(os.path.join(VERIF, "contracts/units.json"))).get(ID, {})
    res, st = [], {}

    def prover():
        try:
            vx = build_vx()
            ths = []

            def one(un, only):
                try:
                    r = check_unit(vx, un, only)
                    if r["status"] == "proved":
                        probe(vx, r)
                except Exception as ex:
                    r = {"unit": un, "status": "undecided", "why": ["runner: %r" % ex], "failed": [],
                         "verified": 0, "errors": 0}
                res.append(r)

            for un, only in units.items():
                t = threading.Thread(target=one, args=(un, only))
                t.start()
                ths.append(t)
            for t in ths:
                t.join()
        except Exception as ex:
            st["vx"] = repr(ex)
            for un in units:
                res.append({"unit": un, "status": "undecided", "why": [repr(ex)], "failed": [], "verified": 0,
                            "errors": 0})

    pt = threading.Thread(target=prover)
    pt.start()
    bins, why = build_harness()
    st["harness"] = why
    runs, replay = [], None
    axioms = check_axioms(bins) if bins and units else None
    pt.join()
    if axioms and axioms["refuted"]:
        for u in res:
            if u["status"] == "proved":
                u["status"] = "undecided"
            u.setdefault("why", []).append("an assumption is false: " + axioms["refuted"])
    undecided = [u for u in res if u["status"] != "proved"]
    if bins:
        plan = [("quick", SEED, 60)]
        if TIER == "thorough":
            plan += [("thorough", SEED, 600), ("thorough", SEED + 1000, 600)]
        elif undecided or not units:
            # no proof to lean on: search harder
            plan += [("thorough", SEED, 150)]
        else:
            plan += [("thorough", SEED, 20)]
        for i, (tier, seed, budget) in enumerate(plan):
            if left() < 60:
                break
            r, rp = run_harness(bins, tier, seed, int(min(budget, left() - 40)), str(i))
            runs.append(r)
            if rp:
                replay = rp
                break
    known = known_findings(bins)
    nfi = None
    failed = [f for u in res if u["status"] == "failed" for f in u["failed"] if f.get("decided")]
    explained = None
    if failed and not replay and all(f.get("needs_an_input") for f in failed):
        for u in res:
            if u["status"] == "failed":
                u["status"] = "undecided"
                u["why"].append("what fails is in functions that call a function whose contract may need a lemma")
        failed = []
    if failed and not replay and bins:
        # The contracts of a unit state several properties at once.  An obligation that fails
        # for a change that breaks another of them, while nothing breaks this one, is theirs.
        allu = json.load(open(os.path.join(VERIF, "contracts/units.json")))
        bad = {u["unit"] for u in res if u["status"] == "failed"}
        for sib in sorted(p for p, us in allu.items() if p != ID and bad & set(us)):
            if left() < 120:
                break
            r, rp = run_harness(bins, "quick", SEED, int(min(60, left() - 60)), "sibling", pid=sib)
            if rp:
                explained = {"property": sib, "failing_input": json.load(open(rp))}
                break
    if failed and not replay and not explained:
        nfi = os.path.join(W, "obligation.json")
        json.dump({"property": ID, "failed_obligations": failed, "searched_without_a_failing_input": runs},
                  open(nfi, "w"), ensure_ascii=False, indent=1)
    vac = [(u["unit"], f) for u in res for f in u.get("vacuous", [])]
    ev = evidence(units, res, runs, known, st, replay, failed, vac)
    if axioms:
        ev["coverage"]["assumptions_checked_on_the_libraries"] = axioms
    if explained:
        ev["violations"] = 0
        ev["coverage"]["failed_obligations_belong_to"] = explained
    json.dump(ev, open(os.path.join(VERIF, "evidence", ID + ".json"), "w"), ensure_ascii=False, indent=1)
    for u in res:
        print("unit %s: %s, %d verified, %d errors%s" % (
            u["unit"], u["status"], u["verified"], u["errors"],
            "; ".join([""] + [w[:160] for w in u.get("why", [])])))
    for r in runs:
        print("search: tier=%s cases=%s complete=%s%s" % (r["tier"], r.get("cases"), r.get("complete"),
                                                          " died: " + r["died"] if "died" in r else ""))
    if st.get("harness"):
        print("harness does not build: " + st["harness"][-400:])
    if replay:
        d = json.load(open(replay))
        print("failing input: " + json.dumps(d, ensure_ascii=False)[:1500])
        for f in failed[:5]:
            print("failed obligation: %s: %s" % (f["function"], f["obligation"]))
        print("VIOLATION property=%s replay=%s" % (ID, replay))
        return 1
    if nfi:
        for f in failed[:5]:
            print("failed obligation: %s: %s" % (f["function"], f["obligation"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (ID, nfi))
        return 1
    if explained:
        for f in failed[:5]:
            print("failed obligation: %s: %s" % (f["function"], f["obligation"]))
        print("they belong to property %s, which has a failing input; none was found for %s" % (
            explained["property"], ID))
    if not runs and not any(u["status"] == "proved" for u in res):
        print("neither the proof nor the search could be run")
        return 2
    if vac:
        print("vacuous contracts: %s" % vac)
        return 2
    print("ok %s (%.0f s)" % (ID, time.time() - T0))
    return 0


def evidence(units, res, runs, known, st, replay, failed, vac):
    cases = sum(r.get("cases", 0) for r in runs)
    samples = [s for r in runs for s in r.get("samples", [])][:6]
    bounded = {"what": "bounded search for a failing input on the real code against an independent reference "
                       "(stands in for what is not under contract; never counted as proved)",
               "cases": cases,
               "runs": [{k: r.get(k) for k in ("tier", "seed", "budget_s", "cases", "complete", "seconds")}
                        for r in runs],
               "samples": samples}
    ev = {"property": ID, "tier": TIER, "seed": SEED, "wall_s": round(time.time() - T0, 1),
          "violations": (1 if replay or failed else 0)}
    if units:
        ob = sum(u["verified"] + u["errors"] for u in res)
        ev["level"] = "proof"
        tb = sorted(set(t for u in res for t in u.get("trusted", [])))
        ev["coverage"] = {
            "obligations": ob, "discharged": sum(u["verified"] for u in res),
            "checker_cmd": "; ".join(u.get("cmd", "") for u in res),
            "trusted_base": tb + [
                "vx: mechanical extraction and lowering of /repo's functions (DESIGN.md, Extraction)",
                "Verus 0.2026.09.13 and Z3", "rustc's own translation of the same source"],
            "back_end": "Verus (Z3)",
            "units": [{"unit": u["unit"], "status": u["status"], "verified": u["verified"], "errors": u["errors"],
                       "smt_ms": u.get("smt_ms"), "functions_under_contract": u.get("functions"),
                       "callee_contracts_used_as_stubs": u.get("stubs"), "undecided_because": u.get("why"),
                       "vacuity_probes_failed_as_required": u.get("probed", 0) - len(u.get("vacuous", []))}
                      for u in res],
            "failed_obligations": [{k: f[k] for k in ("function", "obligation", "source")} for f in failed],
            "vacuous": vac,
            "bounded_stand_in": bounded}
        ev["assumptions"] = tb
    else:
        ev["level"] = "exploration"
        ev["coverage"] = {"evaluations": cases,
                          "distinct_nontrivial": max([r.get("distinct_nontrivial", 0) for r in runs] or [0]),
                          "rule": "structured and random cases for %s, see DESIGN.md; non-trivial: more than one "
                                  "line or ten characters, counted distinct in the largest run" % ID, "samples": samples,
                          "bounded_stand_in": bounded}
    ev["known_findings_demonstrated"] = known
    if st.get("harness"):
        ev["harness_build"] = st["harness"][-500:]
    return ev


sys.exit(main())
