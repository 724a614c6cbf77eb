"""Accept/reject witnesses: pairs of declarations of which one must be refused by the macro and its twin must compile.

Each probe is one declaration; the deciding step is the compiler's verdict on its expansion (nothing is executed)."""
import itertools
import build, corpus
from oracle import Finding

HELPERS = ("get", "get_mut", "set", "reader", "writer", "clearer", "predicate", "lazy", "builder")


class Probe:
    def __init__(self, label, sargs=(), fargs=(), ok=True, ty="C1", item=None, features=("sync", "async", "serde"), props=("C27",), gen="", msg=None, split=False):
        self.label, self.sargs, self.fargs, self.ok, self.ty, self.item = label, tuple(sargs), tuple(fargs), ok, ty, item
        self.features, self.props, self.gen, self.msg, self.split = features, set(props), gen, msg, split
        self.mod = None

    def text(self):
        if self.item:
            return self.item
        fa, sa = list(self.fargs), list(self.sargs)
        on = lambda args, *names: next((a for a in args if a.split("(")[0] in names), None)
        isoff = lambda a: a is not None and a.endswith("(off)")
        sl, fl = on(sa, "lazy"), on(fa, "lazy")
        lazy = (fl is not None and not isoff(fl)) or (fl is None and sl is not None and not isoff(sl))
        if on(fa, "optional", "inner_mut", "clearer", "predicate") and fl is None and not (sl and not isoff(sl)):
            lazy = False
        if "skip" in fa:
            lazy = False
        fall = on(fa, "fallible") or on(sa, "fallible")
        asy = next((a for a in fa if a in ("r#async", "mode(async)", "sync", "mode(sync)", "mode(plain)")), None)
        if asy is None:
            asy = next((a for a in sa if a in ("r#async", "mode(async)")), None)
        is_async = asy in ("r#async", "mode(async)") and ("inner_mut" not in fa or "lock" in fa)
        if self.split:
            fattr = " ".join("#[fieldx(%s)]" % a for a in fa)
        else:
            fattr = "#[fieldx(%s)]" % ", ".join(fa) if fa else ""
        clone = on(sa, "serde") not in (None, "serde(off)")
        t = "#[fxstruct(%s)]\npub struct Foo%s {\n    %s\n    f: %s,\n}\n" % (", ".join(sa), self.gen, fattr, self.ty)
        if clone:
            t += "impl Clone for Foo { fn clone(&self) -> Self { loop {} } }\n"
        body = ""
        if lazy:
            ret = self.ty if not fall or isoff(fall) else "Result<%s, E1>" % self.ty
            base = "g" if 'rename("g")' in fa else "f"
            for n in ("build_" + base, "a_", "a_f"):
                body += "    %sfn %s(&self) -> %s { loop {} }\n" % ("async " if is_async else "", n, ret)
        if any("post_build" in a for a in sa):
            body += "    fn post_build(self) -> Self { self }\n"
        if body:
            ga = self.gen.split(":")[0].strip("<>") if self.gen else ""
            t += "#[allow(dead_code)]\nimpl%s Foo%s {\n%s}\n" % (self.gen, "<%s>" % ga if ga else "", body)
        return t


# Arguments as they can be written, with the group members they stand for.
STRUCT_ATOMS = ["sync", "r#async", "mode(sync)", "mode(async)", "mode(plain)", "builder", "into", "no_new", "default", "rc", "attributes(derive(Debug))", "attributes_impl(allow(dead_code))",
                "fallible(error(E1))", "lazy", "get", "get_mut", "set", "reader", "writer", "clearer", "predicate", "optional", "public", "private", "clone", "copy", "lock", "inner_mut", "serde"]
FIELD_ATOMS = ["skip", "sync", "r#async", "mode(sync)", "mode(async)", "mode(plain)", "attributes_fn(allow(dead_code))", "fallible(error(E1))", "lazy", 'rename("g")', "get", "get_mut", "set", "reader", "writer",
               "clearer", "predicate", "optional", "public", "private", "default(mk_c1())", "builder", "into", "clone", "copy", "lock", "inner_mut", "serde"]
STRUCT_GROUPS = [(("public",), ("private",)), (("copy",), ("clone",)), (("sync", "r#async"), ("inner_mut",), ("mode",)), (("lazy",), ("optional", "inner_mut")), (("serde",), ("rc",))]
FIELD_GROUPS = [(("public",), ("private",)), (("copy",), ("clone",)), (("lazy",), ("optional", "inner_mut")), (("fallible",), ("lock", "optional", "inner_mut")), (("sync",), ("r#async",), ("inner_mut",), ("mode",))]


def head(a):
    return a.split("(")[0]


def conflict(groups, a, b):
    a, b = head(a), head(b)
    for g in groups:
        ia = next((i for i, s in enumerate(g) if a in s), None)
        ib = next((i for i, s in enumerate(g) if b in s), None)
        if ia is not None and ib is not None and ia != ib:
            return True
    return False


def pairs():
    out = []
    for level, atoms, groups in (("struct", STRUCT_ATOMS, STRUCT_GROUPS), ("field", FIELD_ATOMS, FIELD_GROUPS)):
        put = (lambda *a: {"sargs": a, "fargs": ()}) if level == "struct" else (lambda *a: {"sargs": (), "fargs": a})
        for a in atoms:
            out.append(Probe("%s-level %s alone" % (level, a), **put(a)))
        for a, b in itertools.combinations(atoms, 2):
            if head(a) == head(b):
                continue
            c = conflict(groups, a, b)
            out.append(Probe("%s-level %s with %s" % (level, a, b), ok=not c, **put(a, b)))
            if c:
                out.append(Probe("%s-level %s with %s" % (level, b, a), ok=False, **put(b, a)))
                for x, y in ((a, b), (b, a)):
                    if "(" in x or x in ("public",):
                        continue
                    out.append(Probe("%s-level %s(off) with %s" % (level, x, y), **put("%s(off)" % x, y)))
                if level == "field":
                    out.append(Probe("field-level %s and %s in separate attributes" % (a, b), ok=False, split=True, **put(a, b)))
        # more than two members of one group, and a conflict among unrelated arguments
        for g in groups:
            ms = [next(x for x in atoms if head(x) == s[0]) for s in g]
            if len(ms) > 2:
                out.append(Probe("%s-level %s" % (level, ", ".join(ms)), ok=False, **put(*ms)))
            out.append(Probe("%s-level get, set, %s" % (level, ", ".join(ms[:2])), ok=False, **put("get", "set", *ms[:2])))
    return out


def helpers():
    out = []
    for level in ("struct", "field"):
        put = (lambda *a: {"sargs": a, "fargs": ()}) if level == "struct" else (lambda *a: {"sargs": (), "fargs": a})
        hs = HELPERS + (("rc", "serde") if level == "struct" else ())
        for h in hs:
            for sub, ok in (("public", True), ("private", True), ("public(crate)", True), ("public(super)", True), ("public, private", False), ("private, public(crate)", False), ("public, private(off)", True), ("off", True), ("nonsense", False), ("public, nonsense", False), ("off, nonsense = 1", False)):
                if h == "rc" and sub == "off":
                    pass
                out.append(Probe("%s-level %s(%s)" % (level, h, sub), ok=ok, **put("%s(%s)" % (h, sub))))
            if h not in ("serde", "rc"):
                out.append(Probe("%s-level %s with a number" % (level, h), ok=False, **put("%s(12)" % h)))
                out.append(Probe("%s-level %s with two names" % (level, h), ok=False, **put('%s("a_", "b_")' % h)))
                out.append(Probe("%s-level %s with a name" % (level, h), ok=True, **put('%s("a_")' % h)))
        for subs in itertools.combinations(("clone", "copy", "as_ref"), 2):
            out.append(Probe("%s-level get(%s)" % (level, ", ".join(subs)), ok=False, **put("get(%s)" % ", ".join(subs), "optional")))
            out.append(Probe("%s-level get(%s)" % (level, ", ".join(reversed(subs))), ok=False, **put("get(%s)" % ", ".join(reversed(subs)), "optional")))
        out.append(Probe("%s-level get(clone, copy, as_ref)" % level, ok=False, **put("get(clone, copy, as_ref)", "optional")))
        for sub in ("clone", "copy", "as_ref"):
            out.append(Probe("%s-level get(%s)" % (level, sub), ok=True, **put("get(%s)" % sub, "optional")))
    for bad in ("error(E1)", "post_build", "post_build(fin)", "opt_in"):
        out.append(Probe("field-level builder(%s)" % bad, ok=False, sargs=("builder",), fargs=("builder(%s)" % bad,)))
        out.append(Probe("field-level builder(into, %s)" % bad, ok=False, fargs=("builder(into, %s)" % bad,)))
    for good in ("error(E1)", "post_build", "opt_in", "into", "required"):
        out.append(Probe("struct-level builder(%s)" % good, sargs=("builder(%s)" % good,)))
    for good in ("into", "required", "into(off)"):
        out.append(Probe("field-level builder(%s)" % good, fargs=("builder(%s)" % good,)))
    return out


def unknown():
    out = []
    for a in ("nonsense", "nonsense(1)", 'nonsense = "x"', "sink", "lazyy", "getter", "async_", "skip", 'rename("x")', "attributes_fn(allow(dead_code))", '"text"', "12"):
        out.append(Probe("struct-level argument %s" % a, ok=False, sargs=(a,)))
        out.append(Probe("struct-level arguments get, %s" % a, ok=False, sargs=("get", a)))
    for a in ("nonsense", "nonsense(1)", 'nonsense = "x"', "lazyy", "getter", "rc", "no_new", "attributes(derive(Debug))", "attributes_impl(allow(dead_code))", '"text"', "12"):
        out.append(Probe("field-level argument %s" % a, ok=False, fargs=(a,)))
        out.append(Probe("field-level arguments get, %s" % a, ok=False, fargs=("get", a)))
        out.append(Probe("field-level argument %s in an attribute of its own" % a, ok=False, fargs=("get", a), split=True))
    for lv in ("sargs", "fargs"):
        for a in ("mode(nonsense)", "mode", "mode()", "lazy = 12", "optional(12)", "copy(yes)", "public(nonsense)", "fallible(12)", "get(off, off2)"):
            out.append(Probe("%s %s" % (lv, a), ok=False, **{lv: (a,)}))
    for lv in ("sargs", "fargs"):
        for a in ("get", "lazy", "optional", "copy", "public", "r#async", "mode(sync)", "set"):
            out.append(Probe("%s %s twice" % (lv, a), ok=False, **{lv: (a, a)}))
    for it, ok in (("#[fxstruct] pub enum Foo { A, B }", False), ("#[fxstruct] pub struct Foo(u8, u8);", False), ("#[fxstruct] pub struct Foo;", False), 
                   ("#[fxstruct] pub struct Foo { a: u8, b: u8 }", True), ("#[fxstruct] pub struct Foo {}", True), ("#[fxstruct] pub fn foo() {}", False), ("#[fxstruct(lazy, get, builder)] pub struct Foo {}", True)):
        out.append(Probe(it, ok=ok, item=it))
    return out


def copies():
    out = []
    for m in (None, "sync", "r#async"):
        for extra in ((), ("optional",), ("lazy",), ("inner_mut",), ("lock",), ("get_mut", "set"), ("builder", "predicate")):
            if m and extra == ("inner_mut",) or not m and extra == ("lock",):
                continue
            sa = (m,) if m else ()
            for ty, ok in (("C1", True), ("T1", False)):
                out.append(Probe("field-level copy of %s, %s %s" % (ty, m or "plain", ",".join(extra)), ok=ok, ty=ty, sargs=sa, fargs=("copy", "get") + extra))
                out.append(Probe("field-level get(copy) of %s, %s %s" % (ty, m or "plain", ",".join(extra)), ok=ok, ty=ty, sargs=sa, fargs=("get(copy)",) + extra))
                out.append(Probe("struct-level copy of %s, %s %s" % (ty, m or "plain", ",".join(extra)), ok=ok, ty=ty, sargs=sa + ("copy", "get") + extra))
                out.append(Probe("struct-level get(copy) of %s, %s %s" % (ty, m or "plain", ",".join(extra)), ok=ok, ty=ty, sargs=sa + ("get(copy)",) + extra))
    # a field that opts out is not held to it
    out.append(Probe("struct-level copy, field-level clone of T1", ok=True, ty="T1", sargs=("copy", "get"), fargs=("clone",)))
    out.append(Probe("struct-level get(copy), field-level get(clone) of T1", ok=True, ty="T1", sargs=("get(copy)",), fargs=("get(clone)",)))
    out.append(Probe("struct-level get(copy), field-level get(off) of T1", ok=True, ty="T1", sargs=("get(copy)",), fargs=("get(off)",)))
    out.append(Probe("struct-level clone, field-level copy of T1", ok=False, ty="T1", sargs=("clone", "get"), fargs=("copy",)))
    out.append(Probe("copy of a parameter that need not be Copy", ok=False, ty="X", gen="<X>", sargs=("no_new",), fargs=("get(copy)",)))
    out.append(Probe("copy of a parameter that must be Copy", ok=True, ty="X", gen="<X: Copy>", sargs=("no_new",), fargs=("get(copy)",)))
    return out


def cross():
    """Arguments of one level never conflict with those of the other."""
    out = []
    for a in STRUCT_ATOMS:
        for b in FIELD_ATOMS:
            out.append(Probe("struct-level %s, field-level %s" % (a, b), sargs=(a,), fargs=(b,)))
    return out


def samples(n, seed=1):
    """Larger argument lists, drawn pseudo-randomly: refused exactly when they contain a conflicting pair."""
    import random
    rnd = random.Random(seed)
    out = []

    def draw(atoms, k):
        got = []
        for a in rnd.sample(atoms, k):
            if head(a) not in [head(x) for x in got]:
                got.append(a)
        return got

    while len(out) < n:
        sa, fa = draw(STRUCT_ATOMS, rnd.randint(0, 6)), draw(FIELD_ATOMS, rnd.randint(0, 6))
        bad = any(conflict(STRUCT_GROUPS, a, b) for a, b in itertools.combinations(sa, 2)) or any(conflict(FIELD_GROUPS, a, b) for a, b in itertools.combinations(fa, 2))
        if "rc" in sa and "mode(plain)" in sa and any(a in fa for a in ("r#async", "mode(async)")):
            continue    # an Rc of a struct whose builder futures must be Send: not expressible
        out.append(Probe("struct(%s) field(%s)" % (", ".join(sa), ", ".join(fa)), sargs=sa, fargs=fa, ok=not bad))
    return out


NEEDS = {"sync": ("sync", "mode(sync)"), "async": ("r#async", "mode(async)"), "serde": ("serde", 'serde("Name")', "serde(public)")}


def needs(a, have):
    """Crate features an argument is tied to."""
    if head(a) in ("lock", "reader", "writer"):
        return {"sync"}
    return {f for f, xs in NEEDS.items() if a in xs or (f == "serde" and head(a) == "serde")}


def gates(features):
    """Arguments of absent crate features are refused by name; everything else is as with all features."""
    fs = set(features)
    out = []
    for p in pairs() + cross() + samples(600):
        n = set().union(*[needs(a, fs) for a in p.sargs + p.fargs]) if p.sargs + p.fargs else set()
        if n <= fs:
            q = Probe(p.label, p.sargs, p.fargs, p.ok, p.ty, p.item, features, {"C34"}, p.gen, None, p.split)
            out.append(q)
    for f in ("sync", "async", "serde"):
        if f in fs:
            continue
        msg = "feature '%s' is required" % f
        for a in NEEDS[f]:
            for level, atoms in (("sargs", STRUCT_ATOMS), ("fargs", FIELD_ATOMS)):
                if level == "fargs" and a == "serde(public)":
                    a = "serde(default)"
                out.append(Probe("%s-level %s without the feature" % (level[0] == "s" and "struct" or "field", a), ok=False, props=("C34",), msg=msg, **{level: (a,)}))
                for b in atoms:
                    if head(b) != head(a):
                        for args in ((a, b), (b, a)):
                            out.append(Probe("%s-level %s without the feature" % (level[0] == "s" and "struct" or "field", ", ".join(args)), ok=False, props=("C34",), msg=msg, **{level: args}))
                out.append(Probe("field-level %s without the feature, other field arguments elsewhere" % a, ok=False, props=("C34",), msg=msg, sargs=("get", "builder"), fargs=("get", a), split=True) if level == "fargs" else
                           Probe("struct-level %s without the feature, field arguments" % a, ok=False, props=("C34",), msg=msg, sargs=(a,), fargs=("get", "set")))
    return out


def all_probes(thorough=False):
    return pairs() + helpers() + unknown() + copies() + cross() + samples(20000 if thorough else 1500)


def verdicts(probes, features, tag):
    """{probe: None if it compiles, else its error messages}."""
    from concurrent.futures import ThreadPoolExecutor
    features = list(features)
    build.driver()
    flags = build.deps(features)
    for i, p in enumerate(probes):
        p.mod = "p%04d" % i
    groups = []
    for ok in (True, False):
        ps = [p for p in probes if p.ok == ok]
        n = max(1, min(4, (len(ps) + 3) // 4))
        groups += [ps[i::n] for i in range(n) if ps[i::n]]

    def one(k):
        return corpus.run_group("%s_%d" % (tag, k), [(p.mod, p.text()) for p in groups[k]], features, flags, True)

    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, range(len(groups))))
    return {p: bad.get(p.mod) for k, (bad, _, _) in enumerate(outs) for p in groups[k]}


def judge(probes, features, tag):
    v = verdicts(probes, features, tag)
    out = []
    for p in probes:
        es = v[p]
        f = None
        if p.ok and es is not None:
            f = Finding(p.props, "rejected", p.label, "a declaration that must be accepted is rejected (features %s): %s\n%s" % ("+".join(features) or "none", "; ".join(es[:3]), p.text()))
        elif not p.ok and es is None:
            f = Finding(p.props, "accepted", p.label, "a declaration that must be rejected compiles (features %s):\n%s" % ("+".join(features) or "none", p.text()))
        elif not p.ok:
            if any("panicked" in e for e in es):
                f = Finding(p.props, "macro-panic", p.label, "the macro panics instead of reporting the mistake (features %s): %s\n%s" % ("+".join(features) or "none", "; ".join(es[:3]), p.text()))
            elif p.msg and not any(p.msg in e for e in es):
                f = Finding(p.props, "wrong-message", p.label, "rejected, but no message mentions %r (features %s): %s\n%s" % (p.msg, "+".join(features) or "none", "; ".join(es[:3]), p.text()))
        if f:
            out.append(f)
    return out, {"probes": len(probes), "accept": sum(p.ok for p in probes), "reject": sum(not p.ok for p in probes)}
