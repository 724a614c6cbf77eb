#!/usr/bin/env python3
"""Decide one property on the current /repo tree:  check.py <ID> [--thorough] [--all]."""
import json, os, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import itertools, multiprocessing
from concurrent.futures import ProcessPoolExecutor
import aux, build, locks, corpus, specimens, oracle, items, ctor, harness, serdes, serde_specs, generic_specs, bare_specs, type_specs, probes
from build import VERIF
from model import SM, render
from norm import Names

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(.*?) what=(.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out


TAGP = {"naming": {"C16"}, "vis": {"C17"}, "attrs": {"C28"}, "ctor": {"C19"}, "rc": {"C24"}, "skip": {"C35"}, "marker": {"C08"}, "into": {"C11"}, "mode": {"C32"}, "generic": {"C29"}, "serde": {"C25", "C26"}, "structlevel": {"C15"}, "harness": {"C09", "C05", "C03"}, "accept": {"C27"}}


def compile_props(s, sm):
    """Which guarantees fail when a declaration that must be accepted does not compile."""
    if "shadow" in s.tags:
        return {"C39"}
    p = {"C27"}
    if "generic" in s.tags:
        # the same declaration without parameters is among the others
        return p | {"C29"} | (TAGP["serde"] if "serde" in s.tags else set())
    for t in s.tags:
        p |= TAGP.get(t, set())
    if "helpers" in s.tags or "structlevel" in s.tags:
        p |= {"C15"}
        for fm in sm.fields:
            for k in fm.helpers:
                p |= oracle.BASE[k] or {"C05"}
            p.add("C18")
            if fm.lazy:
                p.add(oracle.ONCE[fm.mode])
            if fm.fallible:
                p.add("C30")
            if fm.storage == "inner":
                p.add("C31")
    if sm.has_builder:
        p |= {"C20", "C21", "C23"}
        if sm.builder_error or sm.post_build:
            p.add("C22")
    if any(f.mode == "async" for f in sm.fields):
        p.add("C33")
    return p


ITEM_PROPS = {"C15", "C16", "C17", "C18", "C28", "C29", "C32", "C35", "C30", "C33", "C08", "C24", "C23", "C19"}


WORK = None


def judge_group(k):
    """Analyse and judge one group of specimens (in a worker process); findings name their specimen by module."""
    parts, features, flags, tag = WORK
    fs, st = judge_specs(parts[k], corpus.analyse_group(k, parts[k], features, flags, tag))
    for f in fs:
        f.spec = f.spec.mod
    return fs, st


def run_specs(specs, features, tag):
    """All findings over a set of specimens; returns (findings, stats)."""
    global WORK
    flags, parts = corpus.prepare(specs, features, 16)
    WORK = (parts, features, flags, tag)
    out, st = [], {}
    with ProcessPoolExecutor(8, mp_context=multiprocessing.get_context("fork")) as ex:
        for a, x in ex.map(judge_group, range(len(parts))):
            out += a
            merge(st, x)
    at = {s.mod: i for i, s in enumerate(specs)}
    out.sort(key=lambda f: at[f.spec])
    for f in out:
        f.spec = specs[at[f.spec]]
    return out, st


def judge_specs(specs, res):
    out, st = [], {"specimens": len(specs), "compiled": 0, "helpers": 0, "paths": 0, "obligations": 0, "functions": 0, "by_prop": {}}

    def tally(props, n):
        for p in props:
            st["by_prop"][p] = st["by_prop"].get(p, 0) + n

    for s in specs:
        r = res[s.mod]
        sm = SM(s)
        fs = []
        if not r.ok:
            f = oracle.Finding(compile_props(s, sm), "does-not-compile", s.name, "a valid declaration is rejected: #[fxstruct(%s)] {%s}: %s" % (s.text, "; ".join("#[fieldx(%s)] %s: %s" % (x.text, x.name, x.ty) for x in s.fields), "; ".join(r.errors[:2])))
            f.spec = s
            out.append(f)
            continue
        st["compiled"] += 1
        st["functions"] += len(r.outcomes)
        a, n = items.judge_items(r, sm)
        fs += a
        st["obligations"] += n
        tally(ITEM_PROPS | ({"C08"} if "marker" in s.tags else set()), n)
        got = {f["name"] for f in r.fns}
        names = [Names(fm, rc=sm.weak_field) for fm in sm.fields if fm.storage != "skip"]
        for fm in sm.fields:
            for k, h in fm.helpers.items():
                o = next((v for p, v in r.outcomes.items() if p.startswith("specs::%s::%s" % (s.mod, s.name)) and p.endswith("::" + h.name)), None)
                if o is None:
                    if h.name in got:
                        fs.append(oracle.Finding(oracle.BASE[k], "undecided", h.name, "not analysed"))
                    continue
                a, x = oracle.judge_helper(sm, fm, k, o, h.name, [y for y in names if y.f is not fm])
                fs += a
                st["helpers"] += 1
                tally(oracle.scope(fm, k), x["obligations"])
                st["paths"] += x["paths"]
                st["obligations"] += x["obligations"]
        a, m = ctor.judge_ctors(r, sm)
        fs += a
        st["obligations"] += m
        tally(ctor.scope(sm), m)
        a, m = serdes.judge(r, sm)
        fs += a
        st["obligations"] += m
        tally({"C25", "C26"}, m)
        a, m = locks.judge(r)
        fs += a
        st["obligations"] += m
        tally({"C37"}, m)
        if "harness" in s.tags:
            a, x = harness.judge(r, sm)
            fs += a
            st["paths"] += x["paths"]
            st["obligations"] += x["obligations"]
            tally({"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C12", "C33"}, x["obligations"])
        if "shadow" in s.tags:
            tally({"C39"}, 1 + len(r.fns))
            for f in fs:
                f.props = set(f.props) | {"C39"}
        for f in fs:
            f.spec = s
        out += fs
    return out, st


FULL = ("sync", "async", "serde")
SUBSETS = [c for k in range(3) for c in itertools.combinations(FULL, k)]


def feature_needs(s):
    """Crate features a declaration (with the user code around it) is tied to."""
    t, n = render(s), set()
    if re.search(r"\bsync\b", t):
        n.add("sync")
    if re.search(r"\basync\b", t):
        n.add("async")
    if "serde" in t:
        n.add("serde")
    return n | {f.mode for f in SM(s).fields if f.mode in FULL}


def merge(st, x):
    for k, v in x.items():
        if k == "by_prop":
            for p, n in v.items():
                d = st.setdefault("by_prop", {})
                d[p] = d.get(p, 0) + n
        else:
            st[k] = st.get(k, 0) + v


def base_set(thorough):
    return specimens.default_set(thorough) + serde_specs.fixed() + serde_specs.samples(1500 if thorough else 150) + generic_specs.fixed() + generic_specs.samples(1500 if thorough else 150) + generic_specs.serde_samples(800 if thorough else 80) + bare_specs.fixed() + type_specs.specs() + harness.specs()


def gather(pid, thorough):
    if pid == "C38":
        a, x = aux.findings(oracle)
        st = {"specimens": 0, "compiled": 0, "helpers": 0}
        st.update(x)
        if thorough:
            # the answers may not depend on the crate features
            keys = {f.key() for f in a}
            for feats in SUBSETS:
                b, y = aux.findings(oracle, feats, "aux_" + "_".join(feats))
                a += [f for f in b if f.key() not in keys]
                merge(st, y)
        return a, st
    fs, st = run_specs(base_set(thorough), FULL, "c_" + pid)
    if pid == "try":
        a, x = aux.findings(oracle, tag="aux_try")
        fs += a
        merge(st, x)
    if pid == "C27" or thorough:
        a, x = probes.judge(probes.all_probes(thorough), FULL, "p_" + pid)
        fs += a
        merge(st, x)
        merge(st, {"by_prop": {"C27": x["probes"]}})
    if pid == "C34" or thorough:
        # what holds with all features must hold with any subset of them
        keys = {f.key() for f in fs}
        for feats in SUBSETS:
            ss = [s for s in base_set(False) if feature_needs(s) <= set(feats)]
            a, x = run_specs(ss, feats, "f_%s_%s" % (pid, "_".join(feats)))
            n = x["obligations"]
            for f in a:
                if f.key() not in keys:
                    f.props = set(f.props) | {"C34"}
                    f.text = "only with the crate features [%s]: %s" % ("+".join(feats), f.text)
                    fs.append(f)
            merge(st, x)
            a, x = probes.judge(probes.gates(feats), feats, "g_%s_%s" % (pid, "_".join(feats)))
            fs += a
            merge(st, x)
            merge(st, {"by_prop": {"C34": n + x["probes"]}})
    return fs, st


EXPLAIN = "Every specimen declaration is expanded and compiled from the current tree; the compiler's typed facts and MIR of the generated and run-time functions are explored path by path over unknown field contents, lock states and opaque user code (abstract interpretation, nothing is executed), and each path summary and item fact is compared with what the documentation promises for that declaration."

AUX_EXPLAIN = "Client functions calling fieldx_aux's public queries on unknown arguments are compiled with the crate's current sources; the compiler's MIR of both is explored path by path (nothing is executed) and every path is compared with every abstract world (which parts are given, switched off, how many literals of which kind) it is consistent with. Lists that are looped over: up to three items."


def main():
    pid = next(a for a in sys.argv[1:] if not a.startswith("-"))
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    try:
        fs, st = gather(pid, tier == "thorough")
    except build.TreeError as e:
        f = oracle.Finding({pid}, "tree-does-not-build", "fieldx", str(e)[:3000])
        fs, st = [f], {"obligations": 1}
    mine = [f for f in fs if pid in f.props]
    und = [f for f in mine if f.rule.startswith("undecided")]
    bad = [f for f in mine if not f.rule.startswith("undecided")]
    kn = [(k, w) for p, k, w in known() if p == pid]
    seen, new = set(), []
    for f in bad:
        k = f.key()
        if k in [x for x, _ in kn]:
            seen.add(k)
        else:
            new.append(f)
    for k, w in kn:
        if k in seen:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, w, k))
    rep = os.path.join(VERIF, "evidence", pid + ".findings.txt")
    with open(rep, "w") as fh:
        for f in new + und:
            s = f.spec
            fh.write("property: %s\nkey: %s\nrule: %s\nwhere: %s\nwhat: %s\n" % (pid, f.key(), f.rule, f.where, f.text))
            if s is not None:
                fh.write("declaration (module %s):\n%s\n" % (s.mod, render(s)))
            fh.write("\n")
    for f in new[:20]:
        print("%s: %s: %s: %s" % (pid, f.rule, f.key(), f.text[:700]))
    for f in und[:5]:
        print("UNDECIDED %s: %s: %s" % (pid, f.key(), f.text[:300]))
    cov = {"explanation": AUX_EXPLAIN if pid == "C38" else EXPLAIN, "obligations": st.get("by_prop", {}).get(pid, 0), "discharged": max(0, st.get("by_prop", {}).get(pid, 0) - len(mine)), "obligations_all_properties": st.get("obligations", 0), "specimens": st.get("specimens", 0), "compiled": st.get("compiled", 0), "helpers": st.get("helpers", 0), "paths": st.get("paths", 0), "functions_summarised": st.get("functions", 0), "accept_reject_probes": st.get("probes", 0), "undecided_for_property": len(und), "known_findings": sorted(seen), "rule": ""}
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(new), "assumptions": []}, open(ev, "w"), indent=1)
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        sys.exit(1)
    print("%s: held on %d specimens, %d helpers, %d paths, %d obligations (%.1fs)" % (pid, st["specimens"], st["helpers"], st["paths"], st["obligations"], time.time() - t0))


if __name__ == "__main__":
    try:
        main()
    except build.Broken as e:
        print("NO ANSWER: %s" % e)
        sys.exit(2)
