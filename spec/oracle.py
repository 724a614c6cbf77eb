"""Rules on the behaviour of field helpers: every path of every helper against what the documentation promises."""
import re
from norm import Names, canon, show

ONCE = {"plain": "C10", "sync": "C01", "async": "C02"}


class Finding:
    def __init__(self, props, rule, where, text):
        self.props, self.rule, self.where, self.text = set(props), rule, where, text
        self.spec = None

    def key(self):
        if self.rule == "async-lazy-not-awaited":
            return "%s :: %s" % (self.where, self.rule)
        return "%s :: %s :: %s" % (self.spec.note if self.spec else "-", self.where, self.rule)


# ------------------------------------------------------------------ patterns
class Pat:
    def __init__(self, text, f):
        self.text, self.f = text, f


def match(p, t):
    if isinstance(p, Pat):
        return p.f(t)
    if isinstance(p, (list, tuple)):
        return isinstance(t, (list, tuple)) and len(p) == len(t) and all(match(a, b) for a, b in zip(p, t))
    if isinstance(p, dict):
        return isinstance(t, dict) and set(p) == set(t) and all(match(p[k], t[k]) for k in p)
    return p == t


def ptext(p):
    if isinstance(p, Pat):
        return p.text
    if p is None:
        return "-"
    if isinstance(p, list) and p and p[0] == "enum":
        return p[1] + ("(" + ",".join(ptext(x) for x in p[2]) + ")" if p[2] else "")
    return show(p) if isinstance(p, list) else str(p)


def sym(s):
    return ["sym", s]


def ref(place, c):
    return ["ref", place, c]


def guard(mode, place, c):
    def f(t):
        return isinstance(t, list) and t[0] == "guard" and t[1]["lock"] == "LOCK" and t[1]["mode"] == mode and t[1]["live"] and match(["ref", place, c], t[1]["target"])
    return Pat("%s-guard over %s{%s}" % (mode, place, ptext(c)), f)


def guards_in(t, out=None):
    out = [] if out is None else out
    if isinstance(t, list):
        if t and t[0] == "guard":
            out.append(t[1])
        for x in t:
            guards_in(x, out)
    elif isinstance(t, dict):
        for x in t.values():
            guards_in(x, out)
    return out


def refs_in(t, out=None):
    out = [] if out is None else out
    if isinstance(t, list):
        if t and t[0] == "ref":
            out.append(t[1])
        for x in t:
            refs_in(x, out)
    elif isinstance(t, dict):
        for x in t.values():
            refs_in(x, out)
    return out


def wguard(root, c):
    """A lazy field's write guard: owns the exclusive lock guard and knows its container."""
    def f(t):
        g = guards_in(t)
        return isinstance(t, list) and t[0] == "struct" and len(g) == 1 and g[0]["lock"] == "LOCK" and g[0]["mode"] == "write" and g[0]["live"] and match(["ref", "CELL", c], g[0]["target"]) and root in refs_in(t)
    return Pat("write guard owning the exclusive lock of %s{%s}" % (root, ptext(c)), f)


NONE = ["enum", "None", []]


def some(x):
    return ["enum", "Some", [x]]


def ok(x):
    return ["enum", "Ok", [x]]


# ------------------------------------------------------------------ expectations
class Exp:
    def __init__(self, exit, ret, post, need, what):
        self.exit, self.ret, self.post, self.need, self.what = exit, ret, post, need, what

    def hit(self, o):
        return self.exit == o.exit and (self.exit != "return" or match(self.ret, o.ret)) and match(self.post, o.post)


def access(fm, mode, get_mode, place, c, payload):
    """The declared form of a read access to `place` holding tree `c`."""
    if get_mode == "clone":
        return sym("clone(%s)" % payload) if payload else c
    if get_mode == "copy":
        return c
    if fm.protected or fm.storage == "inner":
        return guard(mode, place, c)
    return ref(place, c)


def expected(fm, kind, n):
    """{previous content: [allowed outcomes]} for one helper."""
    arg = sym("into(ARG)") if fm.set_into else sym("ARG")
    P = sym("P")
    res = {}
    for pre in (("none", "some") if n.is_opt else ("any",)):
        cont = P if pre == "any" else (NONE if pre == "none" else some(P))
        l = []
        gm = fm.get_mode if kind == "get" else None
        mode = "write" if kind in ("get_mut", "writer") else "read"
        if kind in ("get", "get_mut", "reader") and fm.lazy:
            wrap = ok if fm.fallible else (lambda x: x)
            if pre == "some":
                l.append(Exp("return", wrap(access(fm, mode, gm, "CELL@Some.0", P, "P")), cont, True, "stored value"))
            else:
                b = "BUILT@Ok.0" if fm.fallible else "BUILT"
                l.append(Exp("return", wrap(access(fm, mode, gm, "CELL@Some.0", sym(b), b)), some(sym(b)), True, "built value"))
                if fm.fallible:
                    l.append(Exp("return", ["enum", "Err", [sym("BUILT@Err.0")]], NONE, True, "builder error"))
                l.append(Exp("panic", None, NONE, True, "builder panic"))
        elif kind in ("get", "reader", "get_mut"):
            if kind == "get" and gm == "as_ref":
                if fm.storage == "inner" and not fm.protected:
                    l.append(Exp("return", NONE if pre == "none" else some(guard(mode, "CELL@Some.0", P)), cont, True, "optional guard"))
                elif fm.protected:
                    l.append(Exp("return", guard(mode, "CELL", cont), cont, True, "guard over the option"))
                    l.append(Exp("return", guard(mode, "CELL@Some.0", P), cont, False, "mapped guard"))
                    l.append(Exp("return", NONE if pre == "none" else some(guard(mode, "CELL@Some.0", P)), cont, False, "optional guard"))
                else:
                    l.append(Exp("return", NONE if pre == "none" else some(ref("CELL@Some.0", P)), cont, True, "option of reference"))
            elif gm == "clone":
                l.append(Exp("return", sym("clone(P)") if pre == "any" else (NONE if pre == "none" else some(sym("clone(P)"))), cont, True, "clone"))
            else:
                l.append(Exp("return", access(fm, mode, gm, "CELL", cont, None), cont, True, "access"))
        elif kind == "writer":
            if fm.lazy:
                l.append(Exp("return", wguard(n.root, cont), cont, True, "write guard"))
            else:
                l.append(Exp("return", guard("write", "CELL", cont), cont, True, "write guard"))
        elif kind == "set":
            l.append(Exp("return", cont, some(arg) if n.is_opt else arg, True, "store"))
        elif kind == "clearer":
            l.append(Exp("return", cont, NONE, True, "clear"))
        elif kind == "predicate":
            l.append(Exp("return", ["int", 0 if pre == "none" else 1], cont, True, "status"))
        if fm.mode == "async":
            l.append(Exp("cancel", None, cont, False, "cancelled"))
        res[pre] = l
    return res


BASE = {"get": {"C13"}, "reader": {"C13"}, "get_mut": {"C14"}, "set": {"C11"}, "clearer": {"C12"}, "predicate": {"C12"}, "writer": set()}


def props_for(fm, kind, pre=None, exit="return", retbad=True, postbad=False, what=""):
    p = set(BASE[kind])
    once = ONCE[fm.mode]
    if fm.lazy and kind in ("get", "get_mut", "reader"):
        if what != "only-ret-form":
            p.add(once)
        if fm.fallible:
            p.add("C30")
        if pre == "none" and (exit in ("panic", "cancel") or what in ("builder error", "builder panic")):
            p.add("C04")
            if exit == "cancel":
                p.add("C33")
    if kind in ("set", "clearer", "writer") and (fm.lazy or fm.mode != "plain" or fm.optional):
        p.add("C05")
    if fm.storage == "inner":
        p.add("C31")
    if fm.protected and retbad and exit == "return" and kind in ("get", "get_mut", "reader", "writer"):
        p.add("C06")
    if kind == "clearer" and fm.lazy:
        p.add("C03")
    return p


def scope(fm, kind):
    """Every property an obligation about this helper can bear on."""
    return props_for(fm, kind) | {"C07", "C36"} | ({"C03", "C04", "C05", "C06"} if fm.protected else set()) | ({"C33"} if fm.mode == "async" else set()) | ({ONCE[fm.mode]} if fm.lazy else set())


def judge_helper(sm, fm, kind, fnres, name, others=()):
    """All findings about one helper's outcomes."""
    out = []
    n = Names(fm, rc=sm.weak_field)
    where = name

    def add(props, rule, text):
        out.append(Finding(props, rule, where, text))

    stats = {"paths": 0, "obligations": 0}
    everything = scope(fm, kind)
    if not fnres["complete"]:
        add(everything, "undecided", "the path exploration did not finish")
        return out, stats
    exp = expected(fm, kind, n)
    met = {(p, i): False for p in exp for i, e in enumerate(exp[p]) if e.need}
    for o in fnres["outcomes"]:
        stats["paths"] += 1
        if o["exit"] == "bad":
            add(everything, "undecided", "path not understood: %s" % o["ret"])
            continue
        if o["exit"] == "deadlock":
            add({"C07"} | ({"C31"} if fm.storage == "inner" else set()) | ({ONCE[fm.mode]} if fm.lazy else set()), "deadlock", "a path blocks for ever: %s" % evs(o))
            continue
        if o["exit"] == "dead":
            continue
        universal(sm, fm, kind, n, o, add, others)
        if o["exit"] == "panic" and excused(n, o, sm):
            continue
        for x in canon(n, o):
            stats["obligations"] += 1
            hits = [i for i, e in enumerate(exp[x.pre]) if e.hit(x)]
            for i in hits:
                if (x.pre, i) in met:
                    met[(x.pre, i)] = True
            if not hits:
                blame(sm, fm, kind, n, x, exp[x.pre], add)
            if x.extra:
                mine = [k for k in x.extra if k.startswith(n.root + ".") or k == n.root]
                if mine:
                    add(props_for(fm, kind, x.pre, x.exit) | {"C03"} if fm.lazy and fm.mode != "plain" else props_for(fm, kind, x.pre, x.exit), "own-side-effect", "also changes %s" % ", ".join("%s to %s" % (k, show(x.extra[k])) for k in mine))
                else:
                    add({"C36"} | BASE[kind], "foreign-change", "changes %s" % ", ".join("%s to %s" % (k, show(v)) for k, v in x.extra.items()))
    for (p, i), got in met.items():
        stats["obligations"] += 1
        if not got and not any(f.rule.startswith(("undecided",)) for f in out):
            e = exp[p][i]
            add(props_for(fm, kind, p, e.exit, what=e.what) | ({"C04"} if e.what.startswith("builder ") else set()), "missing:%s/%s" % (p, e.what), "with the field %s, no path of the helper gives: %s %s, leaving %s" % (HELD[p], e.exit, ptext(e.ret), ptext(e.post)))
    return out, stats


HELD = {"none": "unset", "some": "set", "any": "as it is"}


def evs(o):
    return "; ".join("%s %s" % (e["e"], e.get("lock") or e.get("f") or e.get("what") or "") for e in o["events"])[:600]


def excused(n, o, sm):
    """Panics that only an object nobody can construct (no builder attached) or an object outside its Rc can reach."""
    for c, v in o["cond"].items():
        if v == "v0" and c.startswith(n.root + ".") and re.search(r"@\d+$", c) and not (n.lock and c.startswith(n.lock + "@")) and n.lock:
            return True
        if v == "v0" and c.startswith("upgrade(self.__weak"):
            return True
    return False


def user_panic(o):
    return any(e["e"] == "panic" and not str(e.get("f") or e.get("what") or "").startswith("core::") for e in o["events"])


def blame(sm, fm, kind, n, x, exps, add):
    same = [e for e in exps if e.exit == x.exit]
    retok = any(e.exit == "return" and match(e.ret, x.ret) for e in same) if x.exit == "return" else False
    postok = any(match(e.post, x.post) for e in same)
    p = props_for(fm, kind, x.pre, x.exit, retbad=not retok)
    s = show(x.ret) + " " + show(x.post)
    if x.exit == "panic":
        builder = any(e["e"] == "panic" and n.re_callee.match(str(e.get("what") or e.get("f") or "")) for e in x.raw["events"])
        if builder:
            p |= {"C04"}
        add(p, "panic/%s" % x.pre, "with the field %s the helper can panic leaving %s; expected: %s" % (HELD[x.pre], show(x.post), want(exps)))
        return
    if x.exit == "cancel":
        if not postok:
            add(p | {"C04", "C33"}, "cancel/%s" % x.pre, "cancelled midway it leaves the field as %s" % show(x.post))
        return
    if "STALE" in s and fm.lazy:
        p.add(ONCE[fm.mode])
    if "BUILT" in s and x.pre == "some":
        p.add(ONCE.get(fm.mode))
    if "BUILT" in s and kind in ("set", "clearer", "writer"):
        p.add("C05")
    if fm.lazy and kind == "set" and not postok:
        p.add("C03") if False else None
    if x.ret and isinstance(x.ret, list) and x.ret[:2] == ["enum", "Err"]:
        p |= {"C04", "C30"}
    if not postok and any(isinstance(x.post, list) and x.post[0] == "part" for _ in (0,)):
        p |= BASE[kind]
    if kind == "reader" and fm.lazy:
        p.add(ONCE[fm.mode])
    add(p, "outcome/%s/%s" % (x.pre, "ret" if not retok else "post"), "with the field %s: returns %s leaving %s; expected: %s" % (HELD[x.pre], show(x.ret), show(x.post), want(exps)))


def want(exps):
    return " | ".join("%s %s leaving %s" % (e.exit, ptext(e.ret), ptext(e.post)) for e in exps if e.need)


def universal(sm, fm, kind, n, o, add, others):
    """Rules that hold on every path of every helper."""
    once = ONCE[fm.mode] if fm.lazy else None
    ev = o["events"]
    for e in ev:
        k = e["e"]
        if k == "recursive":
            add({"C07"}, "recursive-lock", "acquires %s while it already holds it: %s" % (e.get("lock"), evs(o)))
        elif k == "forgot_guard":
            add({"C07"} | ({"C31"} if fm.storage == "inner" else set()), "forgotten-guard", "a guard of %s is never dropped" % e.get("lock"))
        elif k == "raw_access":
            add({"C06"} | ({once} if once else set()), "unguarded-access", "protected data of %s touched without its lock: %s" % (e.get("lock"), evs(o)))
        elif k == "drop_unpolled":
            add({"C33"} | BASE[kind], "dropped-future", "the future %s is dropped without being awaited" % e.get("what"))
        elif k == "flag_store_unlocked":
            add({"C03"}, "status-without-lock", "the set status is written without holding the value's lock: %s" % evs(o))
        elif k == "flag_differs":
            add({"C03"} | ({once} if once else set()), "status-differs", "a lock is released while the set status disagrees with the content: %s" % evs(o))
        elif k == "acq":
            l = e.get("lock", "")
            if not (l == n.root or l.startswith(n.root + ".") or l.startswith("new")):
                add({"C07", "C36"}, "foreign-lock", "acquires %s" % l)
            if e.get("how") == "block" and fm.mode == "async" and o.get("driven") and fm.protected:
                add({"C33", "C07"}, "blocking-in-async", "blocks on %s inside an async helper" % l)
    if kind in ("get", "reader", "predicate") and exclusive(o, n) and not (fm.lazy and kind != "predicate" and seen_unset(o, n)):
        add(BASE[kind] | {"C37"} | ({"C31"} if fm.storage == "inner" else set()), "exclusive-read", "takes %s exclusively although it only reads a value that is already there: whoever calls it while holding a guard to read blocks or panics" % n.lock)
    if o["flag_differs"]:
        mine = [x for x in o["flag_differs"]]
        add({"C03"}, "status-differs", "when the helper ends (%s), the set status disagrees with the content of %s" % (o["exit"], ", ".join(map(str, mine))))
    # locks held at the end are exactly those of the returned guards
    g = sorted("%s:%s" % (x["lock"], x["mode"]) for x in guards_in(o["ret"]) if x["live"] and x["kind"] != "refcell")
    held = sorted(h for h in o["held"])
    if g != held:
        lost = [h for h in held if h not in g]
        add({"C07"} | ({"C04"} if o["exit"] != "return" or (o["ret"] and o["ret"][:2] == ["enum", "Err"]) else set()), "held-at-exit", "ends (%s) holding %s while the guards it returns hold %s" % (o["exit"], held, g))
    # protected data may leave a &self helper only inside a guard
    if fm.protected and o["exit"] == "return":
        for r in bare_refs(o["ret"]):
            if r and n.lock and n.re_place.match(r):
                add({"C06"} | BASE[kind], "reference-escapes", "returns a bare reference into %s" % r)
    # builder calls
    calls = [e for e in ev if e["e"] == "call" and n.re_callee.match(str(e.get("f", "")))]
    for c in calls:
        if not fm.lazy or kind in ("set", "clearer", "writer", "predicate"):
            add(({"C05"} if kind != "predicate" else set()) | BASE[kind], "runs-builder", "runs the lazy builder")
        if fm.protected:
            h = c.get("held", [])
            if n.lock + ":write" not in h and n.lock + ":upgradable" not in h:
                add({once}, "builder-without-exclusive-lock", "runs the builder holding only %s" % (h or "no lock"))
    if len(calls) > 1:
        add(({once} | ({"C04", "C30"} if fm.fallible else set())) if once else {"C36"}, "builder-twice", "runs the builder %d times on one path" % len(calls))
    if calls and fm.lazy:
        k = [v for c, v in o["cond"].items() if n.re_content.fullmatch(c)]
        if "v0" not in k:
            add({once}, "builder-unconditional", "runs the builder without having seen the field unset")
    for e in ev:
        if e["e"] == "call" and not n.re_callee.match(str(e.get("f", ""))):
            for on in others:
                if on.re_callee.match(str(e.get("f", ""))):
                    add({"C36"} | BASE[kind] | ({"C05"} if kind in ("set", "clearer", "writer") else set()), "foreign-builder", "runs the lazy builder of %s" % on.f)


def exclusive(o, n):
    """Does this path ever hold the field's own lock exclusively?"""
    return any(e.get("lock") == n.lock and ((e["e"] in ("acq", "borrow") and e["mode"] == "write") or (e["e"] == "mode" and e.get("to") == "write")) for e in o["events"])


def seen_unset(o, n):
    return any((n.re_content.fullmatch(c) and v == "v0") or (c.startswith("flag(") and v in (0, "0", False, "v0")) for c, v in o["cond"].items())


def bare_refs(t, out=None):
    """Places referred to outside of any guard."""
    out = [] if out is None else out
    if isinstance(t, list):
        if t and t[0] == "guard":
            return out
        if t and t[0] == "lock":
            return bare_refs(t[1].get("content"), out) if False else out
        if t and t[0] == "ref":
            out.append(t[1])
            return out
        for x in t:
            bare_refs(x, out)
    elif isinstance(t, dict):
        for x in t.values():
            bare_refs(x, out)
    return out
