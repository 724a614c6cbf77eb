"""Families of declarations the rules are applied to.  Each specimen is small; together they cover the argument space."""
from model import S, F, SM

ARGS = {"plain": "", "sync": "sync", "async": "r#async"}
MODES = list(ARGS)


def j(*a):
    return ", ".join(x for x in a if x)


def fl(name, text, ty="T1", vis=""):
    return F(name, ty, text, vis)


GETS = [("", "get"), ("clone", "get(clone)"), ("copy", "get(copy)")]


def helper_specs():
    """mode x storage x accessor mode; every helper the storage admits, arguments at field level."""
    out = []
    for m in MODES:
        A = ARGS[m]
        rw = m != "plain"
        for gm, g in GETS + [("as_ref", "get(as_ref)")]:
            ty = "C1" if gm == "copy" else "T1"
            mk = "mk_c1" if gm == "copy" else "mk_t1"

            def sp(note, *fields, tags=(), **kw):
                out.append(S(A, fields, tags=set(tags) | {"helpers"}, note="%s %s %s" % (m, note, gm or "ref"), **kw))

            full = "get_mut, set"
            if gm != "as_ref":
                sp("bare", fl("bar", j(g, full), ty), fl("quux", "get, get_mut, set", "T2"))
                sp("lazy", fl("bar", j("lazy", g, full, "clearer, predicate"), ty), fl("quux", j("lazy, get, get_mut, set, clearer, predicate", "reader, writer" if rw else ""), "T2"))
                sp("lazy fallible", fl("bar", j("lazy, fallible(error(E1))", g, "get_mut, set, clearer, predicate"), ty), fl("quux", "lazy, fallible(error(E2)), set, clearer, predicate, get_mut", "T2"))
                if rw:
                    sp("lazy rw", fl("bar", j("lazy", g, full, "clearer, predicate, reader, writer"), ty), fl("quux", "lock, get, get_mut, set", "T2"))
                    sp("lazy fallible rw", fl("bar", j("lazy, fallible(error(E1))", g, "get_mut, set, clearer, predicate, reader, writer"), ty), fl("quux", "optional, get", "T2"))
                    sp("lock", fl("bar", j("lock", g, full, "reader, writer"), ty), fl("quux", "lock, get, get_mut, set, reader, writer", "T2"))
                    sp("lock reader", fl("bar", j(g, "reader"), ty), fl("quux", "writer", "T2"))
                    sp("optional off-lock", fl("bar", j("optional, lock(off)", g, "get_mut, set, clearer, predicate"), ty), fl("quux", "lazy", "T2"))
                sp("inner", fl("bar", j("inner_mut", g, full), ty), fl("quux", "inner_mut, get, get_mut, set", "T2"))
            sp("optional", fl("bar", j("optional", g, full, "clearer, predicate", "reader, writer" if rw else ""), ty), fl("quux", "optional, get, get_mut, set, clearer, predicate", "T2"))
            if True:
                if not rw or True:
                    sp("inner optional", fl("bar", j("inner_mut, optional", "lock(off)" if rw else "", g, full, "clearer, predicate"), ty), fl("quux", j("inner_mut, optional, get, set, clearer, predicate", "lock(off)" if rw else ""), "T2"))
            if gm == "as_ref":
                out.append(S(j(A, "optional, lock(off), get(as_ref)" if rw else "optional, get(as_ref)"), [fl("bar", "get_mut, set, clearer, predicate"), fl("quux", "get", "T2")], tags={"helpers"}, note="%s struct-level as_ref" % m))
            if gm == "as_ref" and rw:
                sp("optional off-lock", fl("bar", "optional, lock(off), get(as_ref), get_mut, set, clearer, predicate"), fl("quux", "lazy", "T2"))
            if gm in ("", "clone"):
                sp("implied optional", fl("bar", j("" if not gm else g, "clearer")), fl("quux", "predicate", "T2"), fl("baz", "lazy, clearer, predicate", "T2"))
        # into
        for st in ["", "lazy", "optional", "inner_mut", "lazy, fallible(error(E1))"] + (["lock"] if rw else []):
            out.append(S(A, [fl("bar", j(st, "set(into), get")), fl("quux", j(st if "fallible" not in st else "", "into, set"), "T1")], tags={"helpers", "into"}, note="%s %s into" % (m, st or "bare")))
    return out


def struct_level_specs():
    """The same arguments given on the struct, with field-level exceptions."""
    out = []
    for m in MODES:
        A, rw = ARGS[m], m != "plain"

        def sp(note, args, *fields, **kw):
            out.append(S(j(A, args), fields, tags={"helpers", "structlevel"}, note="%s struct-level %s" % (m, note), **kw))
        sp("accessors", "get, get_mut, set", fl("bar", ""), fl("quux", "get(off)", "T2"), fl("baz", "set(off), get_mut(off)", "T2"))
        sp("clone", "get(clone), set(into)", fl("bar", ""), fl("quux", "get(copy)", "C1"), fl("baz", "get(as_ref), optional, into(off)", "T1"))
        sp("copy", "copy, get, set", fl("bar", "", "C1"), fl("quux", "clone", "T2"), fl("baz", "get(clone)", "T2"))
        sp("clone2", "clone, get", fl("bar", ""), fl("quux", "clone(off)", "T2"), fl("baz", "copy(off)"), fl("qux", "copy", "C1"))
        sp("copy2", "copy, get", fl("bar", "", "C1"), fl("quux", "clone(off)", "C1"), fl("baz", "copy(off)", "C1"), fl("qux", "get(clone), copy", "C1"))
        sp("lazy", "lazy, get, set, clearer, predicate, get_mut", fl("bar", ""), fl("quux", "lazy(off)", "T2"))
        sp("lazy off", "lazy, get_mut", fl("bar", ""), fl("quux", "lazy(off), get, get_mut(off)", "T2"))
        sp("optional", "optional, get, set, clearer, predicate, get_mut", fl("bar", ""), fl("quux", "optional(off), clearer(off), predicate(off)", "T2"), fl("baz", "lazy", "T2"))
        sp("clearer", "clearer, predicate", fl("bar", ""), fl("quux", "clearer(off), predicate(off), get", "T2"))
        if not rw:
            sp("inner", "inner_mut, get, get_mut, set", fl("bar", ""), fl("quux", "inner_mut(off)", "T2"))
        sp("fallible", "fallible(error(E1)), get, set, get_mut", fl("bar", "lazy"), fl("quux", "", "T2"), fl("baz", "lazy, fallible(off)", "T2"), fl("qux", "lazy, fallible(error(E2))", "T2"))
        sp("fallible lazy", "lazy, fallible(error(E1)), get_mut, clearer", fl("bar", ""), fl("quux", "fallible(off)", "T2"))
        sp("into", "into, set", fl("bar", ""), fl("quux", "into(off)"), fl("baz", "into(off), set(into)"), fl("qux", "set"))
        if rw:
            sp("lock", "lock, get, get_mut, set", fl("bar", ""), fl("quux", "lock(off)", "T2"), fl("baz", "lazy", "T2"))
            sp("reader", "reader, writer", fl("bar", ""), fl("quux", "reader(off), writer(off), get", "T2"), fl("baz", "lazy", "T2"), fl("qux", "reader(off)", "T2"))
            sp("lock off", "optional, lock(off), get, set, clearer, predicate, get_mut", fl("bar", ""), fl("quux", "lock", "T2"))
    return out


def naming_specs():
    out = []
    for m in MODES:
        A, rw = ARGS[m], m != "plain"
        k = "reader, writer" if rw else ""

        def sp(note, args, *fields, **kw):
            out.append(S(j(A, args), fields, tags={"naming"}, note="%s naming %s" % (m, note), **kw))
        sp("field names", "", fl("bar", j('lazy("mk_bar"), get("g_bar"), get_mut("gm_bar"), set("s_bar"), clearer("c_bar"), predicate("p_bar")', 'reader("r_bar"), writer("w_bar")' if rw else "")), fl("quux", j("lazy, get, get_mut, set, clearer, predicate", k), "T2"))
        sp("prefixes", j('lazy("lz_"), get("gt_"), get_mut("gm_"), set("st_"), clearer("cl_"), predicate("pr_")', 'reader("rd_"), writer("wr_")' if rw else ""), fl("bar", ""), fl("quux", 'get("my_quux"), set("my_set"), get_mut("my_mut"), clearer("my_clr"), predicate("my_pred"), lazy("my_lazy")', "T2"), fl("baz", 'rename("zed")', "T2"))
        sp("rename", "", fl("bar", j('rename("zed"), lazy, get, get_mut, set, clearer, predicate', k)), fl("quux", j('rename("quu"), get("explicit"), set, clearer', k), "T2"), fl("bare", 'rename("zz"), get, get_mut, set', "T2"))
        sp("optional rename", "", fl("bar", j('rename("zed"), optional, get, get_mut, set, clearer, predicate', k)), fl("quux", j('optional, get("o_get"), get_mut("o_mut"), set("o_set"), clearer("o_clr"), predicate("o_pred")', 'reader("o_rd"), writer("o_wr")' if rw else ""), "T2"))
        sp("builder names", 'builder("with_"), get', fl("bar", ""), fl("quux", 'rename("zed")', "T2"), fl("baz", 'builder("exact")', "T2"))
        sp("builder names 2", "builder", fl("bar", 'builder("a_bar"), rename("nope"), get'), fl("quux", 'rename("zed"), lazy', "T2"), fl("baz", "get_mut, builder", "T2"))
        sp("rc name", 'rc("me")', fl("bar", "get"), fl("quux", "lazy", "T2"))
        if not rw:
            sp("inner", "inner_mut, get, get_mut, set", fl("bar", 'rename("zed")'), fl("quux", 'get("g"), set("s"), get_mut("m")', "T2"))
    return out


def vis_specs():
    out = []
    for m in MODES:
        A, rw = ARGS[m], m != "plain"
        H = ["get", "get_mut", "set", "clearer", "predicate"] + (["reader", "writer"] if rw else [])

        def sp(note, args, *fields, vis="pub", **kw):
            out.append(S(j(A, args), fields, vis=vis, tags={"vis"}, note="%s visibility %s" % (m, note), **kw))
        allh = ", ".join(H)
        sp("struct pub", "builder", fl("bar", j("lazy", allh)), fl("quux", j("lazy, private", allh), "T2"), fl("baz", j("lazy, public(crate)", allh), "T2"), fl("qux", j("optional", allh), "T2"), vis="pub")
        sp("struct priv", "builder", fl("bar", j("lazy", allh)), fl("quux", j("lazy, public", allh), "T2"), fl("qux", j("optional, public(super)", allh), "T2"), vis="")
        sp("struct crate", "builder", fl("bar", j("lazy", allh)), fl("qux", j("optional", allh), "T2"), vis="pub(crate)")
        for i, v in enumerate(["public(crate)", "private", "public(super)", "public"]):
            hh = ", ".join("%s(%s)" % (h, v) for h in H)
            sp("helper %s" % v, "", fl("bar", j("lazy", hh)), fl("quux", j("optional, private", hh) if v != "private" else j("optional, public", hh), "T2"), fl("baz", j(*["%s(%s)" % (h, v) for h in ("get", "get_mut", "set")]), "T2"), vis="pub" if v != "public" else "")
            sp("struct helper %s" % v, hh, fl("bar", "lazy"), fl("quux", "optional, public(crate)", "T2"), fl("baz", j("optional", ", ".join("%s(public(super))" % h for h in H)), "T2"), vis="pub" if v != "public" else "")
            sp("struct %s" % v, j(v, "builder"), fl("bar", j("lazy", allh)), fl("quux", j("optional, public(super)", allh), "T2"), vis="pub" if v != "public" else "")
        sp("off private", "private, get(public)", fl("bar", "get, set"), fl("quux", "get(private), set(public)", "T2"), fl("baz", "public(crate), get, set", "T2"))
        sp("builder private", "builder(private)", fl("bar", "get"))
        sp("builder crate", "builder(public(crate)), public", fl("bar", "get"), vis="")
        sp("builder pub in private", "builder(public), private", fl("bar", "get"))
        sp("rc public", "rc(public)", fl("bar", "get"))
        sp("rc crate", "rc(public(crate))", fl("bar", "get"))
        sp("fields", "get", fl("bar", "", vis="pub"), fl("quux", "lazy", "T2", vis="pub(crate)"), fl("baz", "optional", "T2", vis="pub(super)"))
        if not rw:
            sp("inner", "inner_mut, get, get_mut, set", fl("bar", "private"), fl("quux", "get(public(crate)), get_mut(private), set(public(super))", "T2"))
    return out


def attr_specs():
    out = []
    MU, CO, DE, TC = "must_use", "cold", "deprecated", "track_caller"
    for m in MODES:
        A, rw = ARGS[m], m != "plain"
        H = ["get", "get_mut", "set", "clearer", "predicate"] + (["reader", "writer"] if rw else [])

        def sp(note, args, *fields, **kw):
            out.append(S(j(A, args), fields, tags={"attrs"}, note="%s attributes %s" % (m, note), **kw))
        all_ = lambda a: ", ".join("%s(attributes_fn(%s))" % (h, a) for h in H)
        one = lambda: ", ".join("%s(attributes_fn(%s))" % (h, [MU, CO, DE][i % 3]) for i, h in enumerate(H))
        sp("none", "builder", fl("bar", j("lazy", ", ".join(H))), fl("quux", j("optional", ", ".join(H)), "T2"))
        sp("field helper", "", fl("bar", j("lazy", one())), fl("quux", j("optional", all_(MU)), "T2"), fl("baz", "get(attributes_fn(cold)), get_mut(attributes_fn(must_use)), set(attributes_fn(deprecated))", "T2"))
        sp("field", "builder", fl("bar", j("lazy, attributes_fn(cold)", ", ".join(H))), fl("quux", j("optional, attributes_fn(must_use)", ", ".join(H)), "T2"), fl("baz", "get, get_mut, set, attributes_fn(deprecated)", "T2"))
        sp("field over struct", all_(MU), fl("bar", j("lazy", all_(CO))), fl("quux", j("optional, attributes_fn(deprecated)", ", ".join(H)), "T2"), fl("baz", "lazy", "T2"))
        sp("struct helper", one(), fl("bar", "lazy"), fl("quux", "optional", "T2"))
        sp("builder", "builder(attributes(must_use), attributes_fn(cold))", fl("bar", "get"), fl("quux", "builder(attributes_fn(deprecated))", "T2"), fl("baz", "attributes_fn(must_use), get", "T2"))
        sp("builder 2", "builder", fl("bar", "builder(attributes_fn(must_use))"), fl("quux", "", "T2"))
        sp("struct attributes", "attributes(non_exhaustive)", fl("bar", "get"))
        sp("two", "", fl("bar", "get(attributes_fn(must_use, cold)), set(attributes_fn(deprecated, must_use))"))
        sp("with values", 'get(attributes_fn(must_use = "s-why"))', fl("bar", 'lazy, predicate(attributes_fn(cold, must_use = "p-why")), set(attributes_fn(deprecated(since = "1", note = "n-why"), must_use))'), fl("quux", 'optional, clearer(attributes_fn(deprecated = "c-why", must_use = "d-why",)), set(attributes_fn(doc = "text", cold))', "T2"), fl("baz", 'get(attributes_fn(rustfmt::skip, cold)), set(attributes_fn(allow(clippy::all), must_use = "a, b"))', "T2"))
        sp("values elsewhere", 'attributes(doc = "struct doc", non_exhaustive), builder(attributes(doc = "bt", must_use = "bt-why"), attributes_fn(doc = "b", must_use = "b-why")), attributes_impl(doc = "impl doc")', fl("bar", 'get, builder(attributes_fn(must_use = "f-why", cold))'), fl("quux", 'lazy, attributes_fn(doc = "q", must_use = "q-why")', "T2"))
    return out


def ctor_specs():
    out = []
    for m in MODES:
        A, rw = ARGS[m], m != "plain"

        def sp(note, args, *fields, **kw):
            out.append(S(j(A, args), fields, tags={"ctor"} | set(kw.pop("tags", ())), note="%s ctor %s" % (m, note), **kw))
        D, D2 = "default(mk_t1())", "default(mk_t2())"
        allf = lambda d1="", d2="": [fl("a", j("get", d1)), fl("b", j("lazy", d2), "T2"), fl("c", j("optional", d1)), fl("d", j("lock" if rw else "inner_mut", d2), "T2")]
        sp("plain fields", "", *allf())
        sp("defaults", "", *allf(D, D2))
        sp("no_new", "no_new", *allf())
        sp("no_new default", "no_new, default", *allf())
        sp("no_new field default", "no_new", *allf(D, D2))
        sp("inner optional", "", fl("a", j("inner_mut, optional", "lock(off)" if rw else "", D)), fl("b", j("inner_mut", "lock(off)" if rw else "", "get"), "T2"), fl("c", j("inner_mut, optional", "lock(off)" if rw else ""), "T2"))
        sp("clearer default", "", fl("a", j("clearer, predicate", D)), fl("b", "predicate", "T2"))
        sp("literals", "", fl("a", "get, default(42)", "u32"), fl("b", 'get, default("text")', "String"), fl("c", "lazy, default(7)", "u32"), fl("d", "optional, default(9)", "u32"))
        sp("empty literals", "", fl("a", 'get, default("")', "String"), fl("b", 'lazy, default("")', "String"), fl("c", 'optional, default("")', "String"), fl("d", "optional, default(0)", "u32"))
        sp("more literals", "", fl("a", 'lazy, default("two words")', "String"), fl("b", 'optional, default("a b")', "String"), fl("c", "get, default(true)", "bool"), fl("d", "lazy, default(false)", "bool"), fl("e", "optional, default('c')", "char"))
        sp("skip", "", fl("a", "skip"), fl("b", "skip, default(mk_t2())", "T2"), fl("c", "lazy", "T2"))
        if rw:
            sp("off lock", "", fl("a", j("optional, lock(off)", D)), fl("c", "optional, lock(off)"), fl("d", "lock(off), get", "T2"))
            sp("reader writer", "", fl("a", "reader"), fl("b", j("writer", D2), "T2"), fl("c", "lazy, reader, writer, " + D2, "T2"))
        sp("fallible", "", fl("a", "lazy, fallible(error(E1))"), fl("b", "lazy, fallible(error(E2)), " + D2, "T2"))
        # builders
        sp("builder bare", "builder", fl("a", "get"), fl("b", "", "T2"))
        sp("builder all", "builder", *allf())
        sp("builder all defaults", "builder", *allf(D, D2))
        sp("builder no_new", "builder, no_new", *allf(), **({}))
        sp("builder into", "builder(into)", fl("a", "get"), fl("b", "lazy"), fl("c", "optional, builder(into(off))"), fl("d", "lock" if rw else "inner_mut"))
        sp("builder field into", "builder", fl("a", "builder(into)"), fl("b", "lazy, into"), fl("c", "optional, builder(into)"), fl("d", j("lock" if rw else "inner_mut", "builder(into)")))
        sp("struct into", "into, builder", fl("a", "set"), fl("b", "lazy, into(off)"), fl("c", "optional"))
        sp("builder opt_in", "builder(opt_in)", fl("a", "builder"), fl("b", "lazy", "T2"), fl("c", 'optional, builder("cc")'), fl("d", "get", "T2"))
        sp("builder field only", "", fl("a", "builder"), fl("b", "lazy", "T2"), fl("c", "optional, builder"), fl("d", "get", "T2"))
        sp("builder off", "builder", fl("a", "builder(off), get"), fl("b", "lazy, builder(off)", "T2"), fl("c", "optional, builder(off)"), fl("d", j("builder(off)", D2), "T2"), fl("e", "get", "T2"))
        sp("builder struct off", "builder(off)", fl("a", "get"), fl("b", "lazy", "T2"))
        sp("builder required", "builder(required)", fl("b", "lazy", "T2"), fl("c", "optional"), fl("d", "get", "T2"), fl("e", "builder(required(off)), optional", "T2"))
        sp("builder required field", "builder", fl("b", "lazy, builder(required)", "T2"), fl("c", "optional, builder(required)"), fl("d", "get", "T2"), fl("e", "builder(required), " + D2, "T2"))
        sp("builder error", "builder(error(E1))", fl("a", "get"), fl("b", "lazy", "T2"))
        sp("builder post", "builder(post_build)", fl("a", "get"), fl("b", "lazy", "T2"), user=["#[inline(never)] fn post_build(self) -> Self { loop {} }"])
        sp("builder post named", "builder(post_build(finish))", fl("a", "get"), fl("b", "optional", "T2"), user=["#[inline(never)] fn finish(self) -> Self { loop {} }"])
        sp("builder post error", "builder(post_build, error(E1))", fl("a", "get"), fl("b", "lazy", "T2"), user=["#[inline(never)] fn post_build(self) -> Result<Self, E1> { loop {} }"])
        sp("builder inner", "builder", fl("a", "inner_mut"), fl("b", "inner_mut, optional", "T2"), *([fl("c", "lazy", "T2")] if m != "async" else []))
        sp("builder fallible", "builder", fl("a", "lazy, fallible(error(E1))"), fl("b", "get", "T2"))
        sp("builder skip", "builder", fl("a", "skip, default(mk_t1())"), fl("b", "get", "T2"))
        if rw:
            sp("builder off lock", "builder", fl("a", "optional, lock(off)"), fl("b", "lock, reader, writer", "T2"), fl("c", "writer, lazy", "T2"))
        sd = ["#[inline(never)] fn dflt() -> T1 { loop {} }"]
        SD = "default(Self::dflt())"
        sf = lambda: [fl("a", j("get", SD)), fl("b", j("lazy", SD)), fl("c", j("optional", SD)), fl("d", j("lock" if rw else "inner_mut", SD)), fl("e", j("skip", SD))]
        sp("self default", "", *sf(), user=sd)
        sp("self default builder", "builder", *sf(), user=sd)
        sp("self default builder off", "builder(opt_in)", *sf(), user=sd)
        # arguments that must not reach a skipped field
        for x in ["get(copy)", "lazy, clearer, predicate", "optional", "inner_mut" if not rw else "lock", "clearer", "set(into), get_mut", "reader, writer, get" if rw else "get", "fallible(error(E1)), lazy"]:
            sp("skip under " + x, x, fl("a", "skip"), fl("b", "skip, default(mk_t2())", "T2"), fl("c", "", "C1"), tags=["skip"])
            sp("skip with builder under " + x, j("builder", x), fl("a", "skip"), fl("b", "skip, default(mk_t2())", "T2"), fl("c", "", "C1"), tags=["skip"])
        sp("skip over", "", fl("a", "skip, lazy, clearer, predicate, get"), fl("b", "skip, get, set, optional", "T2"), fl("c", "skip, inner_mut, get"), fl("d", "skip, reader, writer, lock", "T2"), tags=["skip"])
        sp("rc copy", "rc, get(copy)", fl("a", "", "C1"), tags=["rc"])
        sp("rc lazy", "rc, lazy, get", fl("a", ""), tags=["rc"])
        sp("rc lock", "rc, lock, get, clearer, predicate" if rw else "rc, inner_mut, get", fl("a", ""), tags=["rc"])
        # reference counting
        sp("rc", "rc", fl("a", "get"), fl("b", "lazy", "T2"), tags=["rc"])
        sp("rc all", "rc", *allf(D, D2), tags=["rc"])
        sp("rc builder", "rc, builder", fl("a", "get"), fl("b", "lazy", "T2"), fl("c", "optional"), tags=["rc"])
        sp("rc no_new builder", "rc, builder, no_new", fl("a", "get"), fl("b", "lazy", "T2"), tags=["rc"])
        sp("rc builder post", "rc, builder(post_build)", fl("a", "get"), fl("b", "lazy", "T2"), tags=["rc"], user=["#[inline(never)] fn post_build(self) -> Self { loop {} }"])
        sp("rc helpers", "rc(public), get, set, clearer, predicate, get_mut", fl("a", "lazy"), fl("b", "optional", "T2"), tags=["rc"])
        sp("rc fallible", "rc, get_mut, set, clearer", fl("a", "lazy, fallible(error(E1))"), fl("b", "lazy", "T2"), tags=["rc"])
    return out


STRUCT_MODES = ["", "sync", "mode(sync)", "r#async", "mode(async)", "mode(plain)", "sync(off)", "r#async(off)"]
FIELD_MODES = ["", "sync", "mode(sync)", "r#async", "mode(async)", "mode(plain)", "lock", "lock(off)", "reader", "writer", "reader, writer", "sync(off)", "r#async(off)", "inner_mut", "inner_mut(off)", "reader(off)"]


def unshareable(spec):
    """An async builder borrows the whole object across awaits: no OnceCell or RefCell beside it."""
    sm = SM(spec)
    fs = sm.fields
    return any(f.lazy and f.mode == "async" for f in fs) and (sm.rc == "Rc" or any(f.mode == "plain" and f.storage in ("lazy", "inner") for f in fs))


def shareable(spec):
    """Leave out plain lazy fields where an async builder could not borrow them."""
    if unshareable(spec):
        if SM(spec).rc == "Rc":
            spec.text = ", ".join(a for a in spec.text.split(", ") if a != "rc")
            spec.args.pop("rc")
        spec.fields = [f for f, m in zip(spec.fields, SM(spec).fields) if not (m.mode == "plain" and m.storage in ("lazy", "inner"))]
    return spec


def mode_specs():
    """Every spelling of the mode on the struct against every spelling on a field."""
    out = []
    H = "get, get_mut, set, clearer, predicate"
    for sm in STRUCT_MODES:
        for i, fm in enumerate(FIELD_MODES):
            asy = "async" in sm and "off" not in sm
            fs = [fl("zed", "lazy, " + H, "T2"), fl("opt", "optional, " + H, "T2")]
            if fm == "inner_mut":
                if sm:
                    mine = [fl("bar", "inner_mut, get, get_mut, set")]
                else:
                    mine = [fl("bar", "inner_mut, get, get_mut, set"), fl("last", "sync, lazy, get")]
                fs = [f for f in fs if f.name == "opt"]
                if "mode(" in sm or asy:
                    fs = []
            else:
                mine = [fl("bar", j(fm, "lazy", H)), fl("baz", j(fm, "optional", H)), fl("qux", j(fm, "get, get_mut, set"))]
            out.append(shareable(S(sm, mine + fs, tags={"mode", "helpers"}, note="mode %s / %s" % (sm or "-", fm or "-"))))
            if i % 2 or not sm:
                out.append(shareable(S(j(sm, "rc", "builder" if i % 3 else ""), fs + mine, tags={"mode", "rc", "ctor"}, note="mode %s / %s reversed rc" % (sm or "-", fm or "-"))))
    for x in ("lock(off)", "reader(off)", "writer(off)", "reader(off), writer(off)", "lock(off), rc"):
        out.append(S(x, [fl("bar", "lazy, " + H), fl("baz", "optional, " + H), fl("qux", "get, get_mut, set"), fl("in_", "inner_mut, get, get_mut, set")], tags={"mode", "helpers"} | ({"rc"} if "rc" in x else set()), note="struct %s" % x))
    for x in ("lock", "reader", "writer", "reader, writer"):
        for y in ("mode(plain), lazy", "mode(async), lazy", "mode(plain), optional", "mode(async), optional"):
            out.append(S(x, [fl("bar", j("lazy", H)), fl("baz", j("optional", H)), fl("qux", "get, get_mut, set"), fl("quux", y + ", get", "T2")], tags={"mode", "helpers"}, note="mode by struct %s / %s" % (x, y)))
    return out


def pair_specs():
    """Two arguments on one field which both bear on its mode."""
    out = []
    A1 = ["sync", "mode(sync)", "r#async", "mode(async)", "mode(plain)", "sync(off)", "r#async(off)"]
    A2 = ["lock", "lock(off)", "reader", "writer", "reader(off)", "inner_mut(off)"]
    pairs = [(a, b) for a in A1 for b in A2] + [(a, b) for a in ("lock", "lock(off)") for b in ("inner_mut", "reader", "writer", "reader(off)", "inner_mut(off)")] + [("inner_mut", "reader"), ("inner_mut", "writer"), ("inner_mut", "reader(off)")]
    for sm in STRUCT_MODES[:6]:
        for a, b in pairs:
            fm = "%s, %s" % (a, b)
            fs = [fl("qux", j(fm, "get, get_mut, set"))]
            if "inner_mut" not in (a, b):
                fs = [fl("bar", j(fm, "lazy, get, set, clearer, predicate"))] + fs
            fs.append(fl("baz", j(fm, "optional, get, get_mut, set, clearer, predicate"), "T2"))
            out.append(shareable(S(sm, fs, tags={"mode", "helpers"}, note="modes %s / %s" % (sm or "-", fm))))
    return out


def struct_pair_specs():
    """Two arguments of the struct which both bear on the mode."""
    out = []
    H = "get, get_mut, set, clearer, predicate"
    for a in ["sync", "mode(sync)", "r#async", "mode(async)", "mode(plain)", "sync(off)", "r#async(off)"]:
        for b in ["lock", "lock(off)", "reader", "writer", "reader(off)", "writer(off)", "inner_mut(off)", "optional", "optional(off)", "lock, reader(off)"]:
            for rc in ("", "rc"):
                out.append(shareable(S(j(a, b, rc), [fl("bar", j("lazy", H)), fl("baz", j("optional", H)), fl("qux", "get, get_mut, set"), fl("own", j("lock" if "off" not in a and "plain" not in a else "inner_mut", "get, set"), "T2")], tags={"mode", "helpers"} | ({"rc"} if rc else set()), note="struct modes %s %s %s" % (a, b, rc))))
    return out


def marker_specs():
    out = []

    def sp(note, args, fields, m):
        s = S(args, fields, tags={"marker", "nosend"}, note="markers " + note)
        s.marker = m
        out.append(s)
    for m in ("sync", "async"):
        A = ARGS[m]
        sp(m + " lazy", A, [fl("a", "lazy, clearer, predicate, reader, writer, set, get_mut")], (True, True))
        sp(m + " lock", A, [fl("a", "lock, reader, writer, set, get_mut, get"), fl("b", "optional", "T2")], (True, True))
        if m == "sync":
            sp(m + " lazy of !Send", A, [fl("a", "lazy", "NS")], (False, False))
            sp(m + " lazy of !Sync", A, [fl("a", "lazy", "NY")], (True, False))
            sp(m + " rc of !Send", j(A, "rc"), [fl("a", "lazy", "NS")], (False, False))
        sp(m + " lock of !Send", j(A, "no_new"), [fl("a", "lock", "NS")], (False, False))
        sp(m + " optional of !Send", A, [fl("a", "optional", "NS")], (False, False))
        sp(m + " lock of !Sync", A, [fl("a", "lock", "NY")], (True, False))
        sp(m + " fallible", A, [fl("a", "lazy, fallible(error(E1))")], (True, True))
        sp(m + " rc", j(A, "rc"), [fl("a", "lazy"), fl("b", "lock", "T2")], (True, True))
    sp("plain lazy", "", [fl("a", "lazy")], (True, False))
    sp("plain inner", "", [fl("a", "inner_mut")], (True, False))
    sp("plain bare", "", [fl("a", "get"), fl("b", "optional", "T2")], (True, True))
    sp("plain rc", "rc", [fl("a", "get")], (False, False))
    return out


def forms_specs():
    """Spellings of arguments that the other families do not use."""
    out = []
    for m in MODES:
        A, rw = ARGS[m], m != "plain"

        def sp(note, args, *fields, **kw):
            out.append(S(j(A, args), fields, tags={"forms"} | set(kw.pop("tags", ())), note="%s form %s" % (m, note), **kw))
        lk = "lock" if rw else "inner_mut"
        sp("set(into = true)", "", fl("a", "set(into = true)"), fl("b", "set(into = false)", "T2"), fl("c", j(lk, "set(into = true)")), fl("d", "lazy, set(into = false)", "T2"))
        sp("set(into = false) over into", "into", fl("a", "set(into = false)"), fl("b", "set", "T2"))
        sp("struct set(into = false)", "set(into = false)", fl("a", "into"), fl("b", "lazy", "T2"))
        sp("in_mod", "", fl("a", "get, public(in_mod = crate::specs)"), fl("b", "lazy, get(public(in_mod = crate::specs))", "T2"))
        sp("struct in_mod", "public(in_mod = crate::specs), get, set", fl("a", ""), fl("b", "lazy", "T2"))
        sp("opt_in(off)", "builder(opt_in(off))", fl("a", "get"), fl("b", "lazy", "T2"))
        sp("required(off)", "builder(required(off))", fl("a", "get"), fl("b", "lazy", "T2"), fl("c", "builder(required), optional"))
        sp("builder attributes_impl", "builder(attributes_impl(allow(unused)), attributes(derive(Clone)))", fl("a", "get"), fl("b", "optional", "T2"))
        sp("attributes_impl", "attributes_impl(allow(unused)), attributes(allow(dead_code))", fl("a", "get"), fl("b", "lazy", "T2"))
        sp("attributes_impl builder", "attributes_impl(allow(unused)), builder", fl("a", "get"), fl("b", "lazy", "T2"))
        sp("default(off)", "default(off)", fl("a", "get"), fl("b", "optional", "T2"))
        sp("default(off) no_new", "default(off), no_new", fl("a", "get"), fl("b", "optional", "T2"))
        sp("default(off) builder", "default(off), builder", fl("a", "get"), fl("b", "lazy", "T2"), fl("c", "optional"))
        sp("default(off) rc builder", "default(off), rc, builder", fl("a", "get"), fl("b", "lazy", "T2"), fl("c", "optional"), tags=["rc"])
        sp("default(off) over field default", "default(off), builder", fl("a", "get, default(mk_t1())"), fl("b", "lazy, default(mk_t2())", "T2"))
        sp("no_new(off)", "no_new(off)", fl("a", "get"), fl("b", "optional", "T2"))
        sp("rc(off)", "rc(off)", fl("a", "get"), fl("b", "lazy", "T2"))
        sp("rc(private)", "rc(private)", fl("a", "get"), fl("b", "lazy", "T2"), tags=["rc"])
        sp("rc(named, private)", 'rc("me", public(super)), builder', fl("a", "get"), fl("b", "lazy", "T2"), tags=["rc"])
        sp("rc attributes_fn", 'rc(attributes_fn(must_use))', fl("a", "get"), fl("b", "lazy", "T2"), tags=["rc"])
        for x in ("lazy(off)", "optional(off)", "into(off)", "clone(off)", "copy(off)", "get(off)", "set(off)", "builder(off)", "fallible(off)", "clearer(off)", "predicate(off)", "get_mut(off)", "sync(off)", "r#async(off)", "inner_mut(off)", "lock(off)", "reader(off)", "writer(off)"):
            if x in ("sync(off)", "r#async(off)") and A or x in ("lock(off)", "reader(off)", "writer(off)", "inner_mut(off)") and (rw != (x != "inner_mut(off)")):
                continue
            sp("struct " + x, x, fl("a", "get"), fl("b", "lazy", "T2"), fl("c", "optional, set", "T2"))
        for x in ("lazy(off)", "optional(off)", "into(off)", "builder(off)", "clone(off)", "copy(off)", "get(off)", "set(off)", "clearer(off)", "predicate(off)", "get_mut(off)", "fallible(off)", "default(off)"):
            if x == "default(off)":
                continue
            sp("field " + x, "", fl("a", x), fl("b", j("lazy", "" if x.startswith(("lazy", "optional")) else x), "T2"), fl("c", j("optional" if not x.startswith(("lazy", "optional")) else "", x, "set" if "set" not in x else ""), "T2"))
        sp("fallible inherits error", "fallible(error(E1))", fl("a", "lazy, fallible"), fl("b", "lazy, fallible(off)", "T2"), fl("c", "lazy, fallible(error(E2))", "T2"))
        sp("fallible off inherits error", "fallible(off, error(E1))", fl("a", "lazy, fallible"), fl("b", "lazy", "T2"), fl("c", "lazy, fallible(error(E2))", "T2"))
        sp("lazy vis", "", fl("a", "lazy(private)"), fl("b", "lazy(public)", "T2"), fl("c", 'lazy("mk_c", public(crate))', "T2"))
        sp("builder vis on a field", "builder", fl("a", "builder(private)"), fl("b", "builder(public)", "T2"), fl("c", "lazy, builder(public(crate))", "T2"))
        sp("builder error variant", "builder(error(EV, EV::Missing))", fl("a", "get"), fl("b", "lazy", "T2"), fl("c", "builder(required), optional", "T2"))
        sp("builder error variant post", "builder(error(EV, EV::Missing), post_build)", fl("a", "get"), fl("b", "lazy", "T2"), user=["#[inline(never)] fn post_build(self) -> Result<Self, EV> { loop {} }"])
        sp("bare default", "", fl("a", "get, default"), fl("b", "lazy, default", "T2"), fl("c", "optional, default", "T2"), fl("d", j(lk, "default"), "T2"), fl("e", "skip, default", "T2"))
        sp("bare default builder", "builder", fl("a", "get, default"), fl("b", "lazy, default", "T2"), fl("c", "optional, default", "T2"), fl("d", j(lk, "default"), "T2"), fl("e", "skip, default", "T2"))
        sp("raw ident", "builder, set, get_mut, clearer, predicate", fl("r#type", "lazy"), fl("r#fn", "optional", "T2"))
        sp("keyword names", "", fl("a", 'get("r#type"), rename("other")'), fl("b", "lazy", "T2"))
        sp("empty subargs", "get(), set()", fl("a", "lazy(), clearer()"), fl("b", "optional(), predicate()", "T2"))
        sp("separate attributes", "", fl("a", "lazy)] #[fieldx(get(clone))] #[fieldx(set"), fl("b", "optional", "T2"))
    return out


def default_set(thorough=False):
    import cover
    out = helper_specs() + struct_level_specs() + naming_specs() + vis_specs() + attr_specs() + ctor_specs() + marker_specs() + mode_specs() + pair_specs() + struct_pair_specs() + forms_specs() + cover.samples(700, 1)
    if thorough:
        out += cover.samples(4000, 2)
    return out
