"""Client functions over the run-time containers' public API, and the rules on their path summaries."""
import json, re
from model import S, F, SM
from norm import Names, canon, show
from oracle import Finding, Exp, Pat, match, ptext, NONE, some, sym, ok, want, guards_in, guard, ref

MOD = {"sync": "fieldx::sync", "async": "fieldx::r#async"}
RAW = {"sync": "parking_lot::RwLock", "async": "tokio::sync::RwLock"}


def text(mode, fallible):
    c, a = mode.capitalize(), mode == "async"
    b = "FXBuilderFallible<Foo, T1, E1>" if fallible else "FXBuilderInfallible<Foo, T1>"
    d = {"m": MOD[mode], "c": c, "b": b, "raw": RAW[mode], "async": "async " if a else "", "w": ".await" if a else ""}
    t = """
type P = %(m)s::FXProxy%(c)s<%(m)s::%(b)s>;
type L = %(m)s::FXRwLock%(c)s<T2>;
pub fn h_dbg(x: &Foo, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(&x.bar, f) }
pub fn h_into(x: P) -> Option<T1> { x.into_inner() }
pub %(async)sfn h_init(x: &Foo) { x.bar.lazy_init(x)%(w)s }
pub fn h_set(x: &Foo) -> bool { x.bar.is_set() }
pub %(async)sfn h_clear(x: &Foo) -> Option<T1> { x.bar.clear()%(w)s }
pub %(async)sfn h_store(x: &Foo, v: T1) -> Option<T1> { let mut g = x.bar.write()%(w)s; g.store(v) }
pub %(async)sfn h_wclear(x: &Foo) -> Option<T1> { let g = x.bar.write()%(w)s; g.clear() }
pub %(async)sfn h_nothing(x: &Foo) { let _g = x.bar.write()%(w)s; }
pub %(async)sfn h_store2(x: &Foo, v: T1, w: T1) -> (Option<T1>, Option<T1>) { let mut g = x.bar.write()%(w)s; let a = g.store(v); let b = g.store(w); (a, b) }
pub %(async)sfn h_store_clear(x: &Foo, v: T1) -> (Option<T1>, Option<T1>) { let mut g = x.bar.write()%(w)s; let a = g.store(v); let b = g.clear(); (a, b) }
pub %(async)sfn h_clear_store(x: &Foo, v: T1) -> (Option<T1>, Option<T1>) { let mut g = x.bar.write()%(w)s; let a = g.clear(); let b = g.store(v); (a, b) }
pub %(async)sfn h_clear2(x: &Foo) -> (Option<T1>, Option<T1>) { let g = x.bar.write()%(w)s; let a = g.clear(); let b = g.clear(); (a, b) }
pub %(async)sfn h_try_read(x: &Foo) -> bool { x.bar.try_read(x)%(w)s.is_ok() }
pub %(async)sfn h_try_read_mut(x: &Foo) -> bool { x.bar.try_read_mut(x)%(w)s.is_ok() }
pub fn h_lclone(x: &L) -> L { x.clone() }
pub fn h_leq(x: &L, y: &L) -> bool { x == y }
pub fn h_lne(x: &L, y: &L) -> bool { x != y }
pub fn h_leq_self(x: &L) -> bool { x == x }
pub fn h_lfrom(x: T2) -> L { L::from(x) }
pub fn h_linto_from(x: T2) -> L { x.into() }
pub fn h_lnew(x: T2) -> L { L::new(x) }
pub fn h_linto(x: L) -> T2 { x.into_inner() }
pub fn h_ldef() -> L { L::default() }
pub fn h_lref(x: &L) -> &%(raw)s<T2> { x.as_ref() }
pub fn h_lbor(x: &L) -> &%(raw)s<T2> { std::borrow::Borrow::borrow(x) }
pub fn h_lder(x: &L) -> &%(raw)s<T2> { &**x }
pub %(async)sfn h_lread(x: &L) -> T2 { (*x.read()%(w)s).clone() }
pub %(async)sfn h_lwrite(x: &L, v: T2) { *x.write()%(w)s = v; }
pub fn h_ldbg(x: &L, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(x, f) }
""" % d
    if not a:
        t += """
pub fn h_clone(x: &Foo) -> P { x.bar.clone() }
pub fn h_eq(x: &Foo, y: &Foo) -> bool { x.bar == y.bar }
pub fn h_ne(x: &Foo, y: &Foo) -> bool { x.bar != y.bar }
pub fn h_eq_self(x: &Foo) -> bool { x.bar == x.bar }
pub fn h_all_eq(x: &Foo, y: &Foo) -> bool { x == y }
pub fn h_all_clone(x: &Foo) -> Foo { x.clone() }
pub fn h_clone_clear(x: &Foo) -> Option<T1> { let c = x.bar.clone(); c.clear() }
pub fn h_clone_set(x: &Foo) -> bool { let c = x.bar.clone(); c.is_set() }
pub fn h_clone_init(x: &Foo) -> Option<T1> { let c = x.bar.clone(); c.lazy_init(x); c.into_inner() }
pub fn h_clone_rebuild(x: &Foo) -> Option<T1> { let c = x.bar.clone(); let _ = c.clear(); c.lazy_init(x); c.into_inner() }
"""
    return t


def specs():
    out = []
    for m, a in (("sync", "sync"), ("async", "r#async")):
        for fal in (False, True):
            s = S(a, [F("bar", "T1", "lazy, fallible(error(E1))" if fal else "lazy"), F("quux", "T2", "lock")], derives="Clone, PartialEq, Debug" if m == "sync" else "Debug", tags={"harness"}, extra=text(m, fal), note="%s containers%s" % (m, " fallible" if fal else ""))
            s.hmode, s.hfal = m, fal
            out.append(s)
    return out


P, A3 = sym("P"), sym("arg3")
A2 = Pat("the given value", lambda t: t in (sym("arg2"), sym("ARG")))


def tup(*x):
    return ["tup", list(x)]


def rules(mode, fal):
    """name -> (root, is_opt, properties, pre -> [Exp])"""
    b = sym("BUILT@Ok.0" if fal else "BUILT")
    err = [Exp("return", tup(), NONE, True, "builder error")] if fal else []
    C = {"none": NONE, "some": some(P)}
    R = {}
    unit = tup()

    def rule(name, f, props, root="arg1.bar", opt=True):
        R[name] = (root, opt, props, f)
    rule("h_into", lambda p: [Exp("return", C[p], C[p], True, "content")], {"C09"}, "arg1")
    rule("h_init", lambda p: [Exp("return", unit, C[p], True, "kept")] if p == "some" else [Exp("return", unit, some(b), True, "built"), Exp("panic", None, NONE, True, "builder panic")] + err, {"C09", "C04"})
    rule("h_set", lambda p: [Exp("return", ["int", int(p == "some")], C[p], True, "status")], {"C03", "C12"})
    rule("h_clear", lambda p: [Exp("return", C[p], NONE, True, "clear")], {"C05", "C12"})
    rule("h_wclear", lambda p: [Exp("return", C[p], NONE, True, "clear")], {"C05"})
    rule("h_nothing", lambda p: [Exp("return", unit, C[p], True, "nothing")], {"C05"})
    rule("h_store", lambda p: [Exp("return", C[p], some(A2), True, "store")], {"C05"})
    rule("h_store2", lambda p: [Exp("return", tup(C[p], some(A2)), some(A3), True, "store, store")], {"C05"})
    rule("h_store_clear", lambda p: [Exp("return", tup(C[p], some(A2)), NONE, True, "store, clear")], {"C05"})
    rule("h_clear_store", lambda p: [Exp("return", tup(C[p], NONE), some(A2), True, "clear, store")], {"C05"})
    rule("h_clear2", lambda p: [Exp("return", tup(C[p], NONE), NONE, True, "clear, clear")], {"C05"})
    for h in ("h_try_read", "h_try_read_mut"):
        rule(h, lambda p: [Exp("return", ["int", 1], C[p], True, "kept")] if p == "some" else [Exp("return", ["int", 1], some(b), True, "built"), Exp("panic", None, NONE, True, "builder panic")] + ([Exp("return", ["int", 0], NONE, True, "builder error")] if fal else []), {"C04", "C30"} | {"C01" if mode == "sync" else "C02"})
    if mode == "sync":
        def cloned(p):
            def f(t):
                if not (isinstance(t, list) and t[0] == "struct" and t[1].startswith("FXProxy")):
                    return False
                parts = list(t[2].values())
                val = [x for x in parts if x[0] == "lock" and x[1]["agrees"] is not None]
                flag = [x for x in parts if x[0] == "atom"]
                bld = [x for x in parts if x not in val and x not in flag]
                c = NONE if p == "none" else some(sym("clone(P)"))
                bs = flatb(bld)
                return len(val) == 1 and match(c, val[0][1]["content"]) and val[0][1]["agrees"] is True and len(flag) == 1 and flag[0][1] == ["int", int(p == "some")] and (bs is not None)
            return Pat("an independent container holding %s, the same status and builder" % ptext(NONE if p == "none" else some(sym("clone(P)"))), f)
        rule("h_clone", lambda p: [Exp("return", cloned(p), C[p], True, "clone")], {"C09", "C03"})
        rule("h_clone_clear", lambda p: [Exp("return", NONE if p == "none" else some(sym("clone(P)")), C[p], True, "clone, clear")], {"C09"})
        rule("h_clone_set", lambda p: [Exp("return", ["int", int(p == "some")], C[p], True, "clone, status")], {"C09", "C03"})
        rule("h_clone_init", lambda p: [Exp("return", some(sym("clone(P)")), C[p], True, "kept")] if p == "some" else [Exp("return", some(b), NONE, True, "built"), Exp("panic", None, NONE, True, "builder panic")] + ([Exp("return", NONE, NONE, True, "builder error")] if fal else []), {"C09", "C01"})
        rule("h_clone_rebuild", lambda p: [Exp("return", some(b), C[p], True, "built"), Exp("panic", None, C[p], True, "builder panic")] + ([Exp("return", NONE, C[p], True, "builder error")] if fal else []), {"C09", "C01"})
    X = sym("P")
    lockof = lambda c: Pat("unlocked container of %s" % ptext(c), lambda t: isinstance(t, list) and t[0] == "struct" and t[1].startswith("FXRwLock") and len(t[2]) == 1 and list(t[2].values())[0][0] == "lock" and match(c, list(t[2].values())[0][1]["content"]))
    rule("h_lclone", lambda p: [Exp("return", lockof(sym("clone(P)")), X, True, "clone")], {"C09"}, "arg1", False)
    for h in ("h_lfrom", "h_lnew", "h_linto_from"):
        rule(h, lambda p: [Exp("return", lockof(sym("arg1")), X, True, "value")], {"C09"}, "arg1", False)
    rule("h_linto", lambda p: [Exp("return", X, X, True, "content")], {"C09"}, "arg1", False)
    rule("h_ldef", lambda p: [Exp("return", lockof(sym("default<specs::opq::T2>")), X, True, "default")], {"C09"}, "arg1", False)
    for h in ("h_lref", "h_lbor", "h_lder"):
        rule(h, lambda p: [Exp("return", Pat("its own lock", lambda t: isinstance(t, list) and t[0] == "ref" and re.fullmatch(r"arg1\.\w+|CELL", t[1])), X, True, "the lock")], {"C09"}, "arg1", False)
    rule("h_lread", lambda p: [Exp("return", sym("clone(P)"), X, True, "read")], {"C09", "C06"}, "arg1", False)
    rule("h_lwrite", lambda p: [Exp("return", unit, A2, True, "write")], {"C09", "C06"}, "arg1", False)
    return R


def flatb(bld):
    """The clone must have a builder exactly when the source has one; any copy of it will do."""
    if len(bld) != 1:
        return None
    c = bld[0][1]["content"] if bld[0][0] == "lock" else bld[0]
    s = json.dumps(c)
    if c != NONE and "arg1." in s:
        return s
    return None


DBG = {"h_dbg": "arg1.bar", "h_ldbg": "arg1"}
EQ = {"h_eq": ("bar", True, True), "h_ne": ("bar", True, False), "h_leq": (None, False, True), "h_lne": (None, False, False)}
READING = ("h_dbg", "h_ldbg", "h_set", "h_clone", "h_lclone", "h_eq", "h_ne", "h_leq", "h_lne", "h_all_eq", "h_all_clone", "h_lread")
SELF = ("h_eq_self", "h_leq_self")


def names_for(sm, root, opt):
    fm = sm.fields[0] if opt else sm.fields[1]
    n = Names(fm, "arg1")
    if root == "arg1":
        n2 = Names(fm, "arg1", root="arg1")
        return n2
    return n


def judge(res, sm):
    out, stats = [], {"paths": 0, "obligations": 0}
    s = sm.s
    mode = s.hmode
    R = rules(mode, s.hfal)

    def add(props, rule, where, text):
        f = Finding(props, rule, where, text)
        out.append(f)
    for path, o in res.outcomes.items():
        h = path.rsplit("::", 1)[1]
        if not h.startswith("h_"):
            continue
        opt = h in R and R[h][1]
        root = R[h][0] if h in R else DBG.get(h, "arg1" if h.startswith("h_l") else "arg1.bar")
        props = set(R[h][2]) if h in R else {"C09"}
        if not o["complete"]:
            add(props, "undecided", h, "the path exploration did not finish")
            continue
        met = {}
        n = names_for(sm, root, h in R and R[h][1] or h in ("h_dbg", "h_eq", "h_ne", "h_eq_self"))
        if h in R:
            pres = ("none", "some") if R[h][1] else ("any",)
            exps = {p: R[h][3](p) for p in pres}
            if mode == "async":
                for p in pres:
                    c = ["enum", "None", []] if p == "none" else some(P) if p == "some" else P
                    exps[p].append(Exp("cancel", None, c, False, "cancelled"))
            met = {(p, i): False for p in exps for i, e in enumerate(exps[p]) if e.need}
        for x in o["outcomes"]:
            stats["paths"] += 1
            if x["exit"] == "bad":
                add(props, "undecided", h, "path not understood: %s" % x["ret"])
                continue
            if x["exit"] == "dead":
                continue
            if x["exit"] == "deadlock":
                add({"C07"} | props, "deadlock", h, "a path blocks for ever")
                continue
            stats["obligations"] += 1
            if h.startswith("h_all_"):
                props = set()
            universal(x, h, props, add)
            if h in READING and any(e["lock"].startswith("arg") and ((e["e"] == "acq" and e["mode"] == "write") or (e["e"] == "mode" and e.get("to") == "write")) for e in x["events"] if e.get("lock")):
                add({"C09", "C37"}, "exclusive-read", h, "locks a container exclusively although it only reads: whoever calls it while holding a guard to read blocks")
            if (x["exit"] == "panic" or h == "h_clone") and any(v == "v0" and re.search(r"\.builder@\d+$|\.\w+@\d+$", c) and not (n.lock and c.startswith(n.lock + "@")) and c.startswith("arg1") for c, v in x["cond"].items()):
                continue    # containers without a builder cannot be made by the macro
            if h in R:
                for c in canon(n, x):
                    hits = [i for i, e in enumerate(exps[c.pre]) if e.hit(c)]
                    for i in hits:
                        met[(c.pre, i)] = True
                    stats["obligations"] += 1
                    if not hits:
                        add(props, "outcome/%s/%s" % (c.pre, c.exit), h, "%s: returns %s leaving %s; expected: %s" % (c.exit, show(c.ret), show(c.post), want(exps[c.pre])))
                    bad = {k: v for k, v in c.extra.items() if k.startswith("arg")}
                    if bad:
                        add(props, "side-effect", h, "changes %s" % ", ".join("%s to %s" % (k, show(v)) for k, v in bad.items()))
            elif h in DBG:
                r = show(x["ret"])
                if x["exit"] == "return" and not (re.search(re.escape(n.lock) + r"@[1-9]", r) or (h == "h_ldbg" and re.search(r"fmt\(.*%s\b" % re.escape(n.lock), r))):
                    add({"C09"}, "debug", h, "the output does not show the content: %s" % r)
                ch = {k: v for k, v in x["changes"].items() if k.startswith("arg1")}
                if ch:
                    add({"C09"}, "side-effect", h, "changes %s" % ch)
            elif h in EQ:
                judge_eq(h, x, n.lock, add)
            elif h in SELF:
                r = x["ret"]
                if x["exit"] == "return" and not (r == ["int", 1] or "eq(" in json.dumps(r) or any("eq(" in c for c in x["cond"])):
                    add({"C09"}, "eq-self", h, "comparing with itself gives %s under %s" % (show(r), x["cond"]))
        for (p, i), got in met.items():
            stats["obligations"] += 1
            if not got and not any(f.rule == "undecided" and f.where == h for f in out):
                e = exps[p][i]
                add(props, "missing:%s/%s" % (p, e.what), h, "with content %s no path gives: %s %s leaving %s" % (p, e.exit, ptext(e.ret), ptext(e.post)))
    return out, stats


def judge_eq(h, x, lock, add):
    field, opt, pos = EQ[h]
    if x["exit"] != "return":
        add({"C09"}, "eq-exit", h, "a comparison ends with %s" % x["exit"])
        return
    l2 = lock.replace("arg1", "arg2", 1)
    st = {}
    for c, v in x["cond"].items():
        for side, l in ((1, lock), (2, l2)):
            if re.fullmatch(re.escape(l) + r"@\d+", c):
                st[side] = v
    e = [v for c, v in x["cond"].items() if c.startswith("eq(")]
    r = x["ret"]
    if opt and (st.get(1) == "v0" or st.get(2) == "v0"):
        if len(st) < 2:
            add({"C09"}, "eq", h, "decides without looking at both contents: %s under %s" % (show(r), x["cond"]))
            return
        w = ["int", int((st[1] == st[2]) == pos)]
        if r != w:
            add({"C09"}, "eq", h, "gives %s, should give %s when %s" % (show(r), show(w), x["cond"]))
        return
    # both hold a value (or lock containers): the result must be that of comparing exactly the two contents
    t = json.dumps(r)
    a, b = re.escape(lock) + r"@[1-9]\d*" + ("@Some.0" if opt else ""), re.escape(l2) + r"@[1-9]\d*" + ("@Some.0" if opt else "")
    cmp = r"(?:eq\(%s, ?%s\)|eq\(%s, ?%s\))" % (a, b, b, a)
    whole = r"(?:eq\(%s@\d+, ?%s@\d+\))" % (re.escape(lock), re.escape(l2))
    if r[0] == "sym" and (re.fullmatch(cmp, r[1]) or re.fullmatch(whole, r[1])) and pos:
        return
    if r[0] == "sym" and re.fullmatch(r"ne\(.*\)|not\(eq\(.*\)\)", r[1]) and not pos and lock in r[1] and l2 in r[1]:
        return
    ck = [(c, v) for c, v in x["cond"].items() if re.fullmatch(cmp, c) or re.fullmatch(whole, c)]
    if ck and r == ["int", int(bool(ck[0][1]) == pos)]:
        return
    add({"C09"}, "eq", h, "gives %s under %s instead of comparing the two contents" % (show(r), x["cond"]))


def universal(x, h, props, add):
    for e in x["events"]:
        k = e["e"]
        if k == "recursive":
            add({"C07"}, "recursive-lock", h, "acquires %s while already holding it" % e.get("lock"))
        elif k == "forgot_guard":
            add({"C07"}, "forgotten-guard", h, "a guard of %s is never dropped" % e.get("lock"))
        elif k == "raw_access":
            add({"C06"}, "unguarded-access", h, "the content of %s is touched without its lock" % e.get("lock"))
        elif k == "drop_unpolled":
            add({"C33"}, "dropped-future", h, "the future %s is dropped unpolled" % e.get("what"))
        elif k == "flag_store_unlocked":
            add({"C03"}, "status-without-lock", h, "the set status is written without the lock")
        elif k == "flag_differs":
            add({"C03"}, "status-differs", h, "a lock is released while the set status disagrees with the content")
    if x["flag_differs"]:
        add({"C03"}, "status-differs", h, "at the end the set status disagrees with the content of %s" % x["flag_differs"])
    g = sorted("%s:%s" % (y["lock"], y["mode"]) for y in guards_in(x["ret"]) if y["live"] and y["kind"] != "refcell")
    if g != sorted(x["held"]):
        add({"C07", "C09"}, "held-at-exit", h, "ends (%s) holding %s" % (x["exit"], x["held"]))
