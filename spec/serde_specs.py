"""Declarations with the serde argument: fixed families and random samples."""
import random
from model import S, F, SM
from specimens import ARGS, MODES, j, fl
import cover

MKSH = "#[inline(never)] fn mk_sh() -> %s { loop {} }"
# the builder of an async lazy field is a boxed closure: no derive(Clone)
CLONE = " impl Clone for Foo { #[inline(never)] fn clone(&self) -> Self { loop {} } }"
ATTRS = ["must_use", "cold", "deprecated"]


def fixed():
    out = []
    for m in MODES:
        A, rw = ARGS[m], m != "plain"
        D, D2 = "default(mk_t1())", "default(mk_t2())"

        def sp(note, args, *fields, **kw):
            if m == "async" or "r#async" in ", ".join(f.text for f in fields):
                kw["extra"] = kw.get("extra", "") + CLONE
            else:
                kw.setdefault("derives", "Clone")
            kw["tags"] = {"serde"} | set(kw.get("tags", ()))
            out.append(S(j(A, args), fields, note="%s serde %s" % (m, note), **kw))

        def stores(extra="", d="", d2=""):
            fs = [fl("a", j(extra, d)), fl("b", j("lazy", extra, d2), "T2"), fl("c", j("optional", extra, d)), fl("d", j("lock" if rw else "inner_mut", extra, d2), "T2"), fl("e", j("lock" if rw else "inner_mut", "optional", extra, d))]
            if rw:
                fs += [fl("f", j("optional, lock(off)", extra, d)), fl("g", j("lock(off)", extra, d2), "T2"), fl("h", j("lazy, reader, writer", extra, d))]
            return fs
        sp("plain fields", "serde", *stores())
        sp("defaults", "serde", *stores("", D, D2))
        sp("builder", "serde, builder", *stores("", D, D2))
        sp("no_new", "serde, no_new", *stores())
        sp("default", "serde, default, no_new", *stores())
        sp("fallible", "serde", fl("a", "lazy, fallible(error(E1))"), fl("b", "lazy, fallible(error(E1)), clearer, predicate, set, get_mut", "T2"), fl("c", "", "T2"))
        for off in ("off", "serialize(off)", "deserialize(off)", "serialize(off), deserialize(off)", "serialize", "deserialize"):
            for st in ("", "lazy", "optional", "lock" if rw else "inner_mut"):
                sp("field %s %s" % (st, off), "serde", fl("a", j(st, "serde(%s)" % off)), fl("b", j(st, "serde(%s)" % off, D2), "T2"), fl("c", "lazy", "T2"), fl("d", j(st, "serde"), "T2"))
            sp("struct %s" % off, "serde(%s)" % off, *stores())
            sp("struct %s field on" % off, "serde(%s)" % off, fl("a", "serde"), fl("b", "lazy, serde(serialize)", "T2"), fl("c", "optional, serde(deserialize)"), fl("d", D))
        sp("skip", "serde", fl("a", "skip"), fl("b", "skip, " + D2, "T2"), fl("c", "lazy", "T2"), fl("d", "skip, serde"), fl("e", "optional"))
        for k, v in (("lit", 'serde("Shadow")'), ("shadow_name", 'serde(shadow_name("Shadow"))'), ("vis", "serde(public)"), ("crate vis", 'serde("Shadow", public(crate))'), ("super vis", "serde(public(super))"), ("private", "serde(private)")):
            sp(k, v, fl("a", ""), fl("b", "lazy", "T2"), fl("c", "optional"))
        sp("names", "serde", fl("a", 'rename("aa")'), fl("b", 'serde("bb")', "T2"), fl("c", 'rename("cc"), serde("ser_c"), lazy'), fl("d", 'serde("dd"), optional'), fl("e", 'serde("ee"), lazy', "T2"))
        sp("default flag", "serde(default)", *stores())
        sp("default flag decl", "serde(default)", *stores("", D, D2))
        sp("default fn", "serde(default(mk_sh()))", *stores(), user=[], extra=MKSH % "__FooShadow")
        sp("default fn str", 'serde(default("mk_sh"))', *stores(), user=[], extra=MKSH % "__FooShadow")
        sp("default Self fn str", 'serde(default("Foo::mk_me"))', fl("a", ""), fl("b", "lazy", "T2"), user=["#[inline(never)] fn mk_me() -> Foo { loop {} }"])
        sp("default path", "serde(default(Dflt))", fl("a", ""), fl("b", "lazy", "T2"), extra="pub struct Dflt; impl From<Dflt> for __FooShadow { #[inline(never)] fn from(_: Dflt) -> Self { loop {} } }")
        sp("default Self fn", "serde(default(Self::mk_me()))", fl("a", ""), fl("b", "lazy", "T2"), user=["#[inline(never)] fn mk_me() -> Foo { loop {} }"])
        for st in ("", "lazy", "optional", "lock" if rw else "inner_mut"):
            sp("field default %s" % st, "serde", fl("a", j(st, "serde(default)")), fl("b", j(st, "serde(default)", D2), "T2"), fl("c", j(st, "serde(default(mk_t1()))")), fl("d", j(st, "serde(default(mk_t2()))", D2), "T2"))
            sp("field default str %s" % st, "serde", fl("a", j(st, 'serde(default("mk_dflt"))')), extra="#[inline(never)] fn mk_dflt() -> %s { loop {} }" % ("Option<T1>" if st in ("lazy", "optional") else "T1"))
            sp("attributes %s" % st, "serde", fl("a", j(st, 'serde(attributes(serde(alias = "aaa")))')), fl("b", j(st, 'serde(attributes(serde(alias = "bbb")), default)'), "T2"), fl("c", st))
        sp("struct attributes", "serde(attributes(serde(deny_unknown_fields)))", fl("a", ""), fl("b", "lazy", "T2"))
        sp("struct attributes 2", "attributes(must_use), serde", fl("a", ""), fl("b", "lazy", "T2"))
        sp("struct attributes 3", "attributes(must_use), serde(attributes(non_exhaustive))", fl("a", ""), fl("b", "lazy", "T2"))
        sp("forward", "serde", F("a", "T1", "lazy", attrs=['#[serde(alias = "zz")]']), F("b", "T2", "serde(forward_attrs(serde))", attrs=['#[serde(alias = "yy")]', "#[allow(dead_code)]"]))
        sp("off", "serde(off)", fl("a", ""), fl("b", "lazy", "T2"))
        sp("none", "", fl("a", ""), fl("b", "lazy", "T2"))
        sp("inner", "serde", fl("a", j("inner_mut", "lock(off)" if rw else "", D)), fl("b", j("inner_mut, optional", "lock(off)" if rw else ""), "T2"), fl("c", j("inner_mut, optional", "lock(off)" if rw else "", D)))
        if rw:
            sp("mixed modes", "serde", fl("a", "sync, lazy"), fl("b", "mode(plain), optional", "T2"), fl("c", "sync, lock, " + D))
        else:
            sp("mixed modes", "serde", fl("a", "sync, lazy"), fl("b", "r#async, optional", "T2"), fl("c", "sync, lock, " + D), fl("d", "lazy", "T2"))
    return out


def sample(r, i):
    s = cover.sample(r, i)
    sargs = [a.text for a in s.args.values() if a.name not in ("rc", "default")]
    x = cover.pick(r, ("serde", 3), 'serde("Shadow")', "serde(public)", "serde(default)", "serde(serialize(off))", "serde(deserialize(off))", 'serde(shadow_name("Shadow"), public(crate))', "serde(attributes(must_use))", "serde(default(mk_sh()))", "serde(deserialize)", 'serde("Shadow", private, default)')
    name = "Shadow" if '"Shadow"' in x else "__FooShadow"
    sargs.append(x)
    if x in ("serde(default)", 'serde("Shadow", private, default)'):
        sargs.append("default")     # the shadow takes missing fields from its Default
    r.shuffle(sargs)
    fields = []
    for f in s.fields:
        a = [y.text for y in f.args.values()]
        y = cover.pick(r, ("", 4), "serde", "serde(off)", "serde(serialize(off))", "serde(deserialize(off))", "serde(default)", "serde(default(mk_%s()))" % f.ty.lower(), 'serde("ser_%s")' % f.name, 'serde(attributes(serde(alias = "al_%s")))' % f.name, "serde(serialize)")
        if y:
            a.append(y)
        if 'default(' not in f.text and r.random() < .3:
            a.append("default(%s)" % cover.D1[f.ty])
        r.shuffle(a)
        fields.append(F(f.name, f.ty, ", ".join(a), f.vis))
    extra = MKSH % name if "mk_sh" in x else ""
    der = "Clone"
    if "async" in ", ".join(sargs):
        extra, der = extra + CLONE, ""
    return S(", ".join(sargs), fields, vis=s.vis, user=s.user, tags=(s.tags - {"rc"}) | {"serde"}, note="serde sample %d" % i, derives=der, extra=extra)


def samples(n, seed=1):
    r = random.Random("fieldx-serde-%d" % seed)
    out, i = [], 0
    while len(out) < n:
        i += 1
        s = sample(r, i)
        if cover.legal(s):
            out.append(s)
    return out
