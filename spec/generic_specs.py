"""The declarations of other families, made generic in several ways."""
import random, re
from model import S, F, SM
import cover, serde_specs

BD = "Clone + Default + Send + Sync + std::fmt::Debug + 'static"
BDS = "Clone + Default + Send + Sync + std::fmt::Debug + serde::Serialize + serde::de::DeserializeOwned + 'static"
# name: (parameters, arguments, where clause, replacement of T1, replacement of T2)
GENS = {
    "type where": ("<T>", "<T>", "where T: BD", "T", "T2"),
    "type inline": ("<T: BD>", "<T>", "", "T", "T2"),
    "two types": ("<T: BD, U>", "<T, U>", "where U: BD", "T", "U"),
    "lifetime": ("<'a>", "<'a>", "", "T1", "Rf<'a>"),
    "lifetime type": ("<'a, T: BD>", "<'a, T>", "", "T", "Rf<'a>"),
    "lifetimes": ("<'a, 'b, T>", "<'a, 'b, T>", "where 'b: 'a, T: BD", "T", "Rf2<'a, 'b>"),
    "const": ("<const N: usize>", "<N>", "", "Cn<N>", "T2"),
    "const type": ("<T: BD, const N: usize>", "<T, N>", "", "Cn<N>", "T"),
    "type default": ("<T: BD = T1>", "<T>", "", "T", "T2"),
    "all": ("<'a, T: BD, U, const N: usize>", "<'a, T, U, N>", "where U: BD, T: PartialEq", "Gn<'a, T, U, N>", "T"),
}


def generalize(s, g, serde=False):
    """A generic variant of specimen `s`."""
    params, gargs, where, r1, r2 = GENS[g]
    bd = BDS if serde else BD
    rep = {"T1": r1, "T2": r2}

    def dflt(text, ty):
        return re.sub(r"\bmk_t([12])\(\)", r"Self::dflt_t\1()", text)
    fields = []
    for f in s.fields:
        fields.append(F(f.name, rep.get(f.ty, f.ty), dflt(f.text, f.ty), f.vis, attrs=f.attrs))
    user = [re.sub(r"(dflt\w*\(\) -> )(T[12])\b", lambda m: m.group(1) + rep[m.group(2)], u) for u in s.user]
    x = S(dflt(s.text, ""), fields, vis=s.vis, derives=s.derives, generics=params.replace("BD", bd), gargs=gargs, where=where.replace("BD", bd), tags=s.tags | {"generic"}, note="%s generic(%s)" % (s.note, g), user=user)
    # every parameter must be used
    ts = " ".join(f.ty for f in fields)
    # (by a field the shadow has, too)
    need = [p for p in re.findall(r"'?\w+", gargs) if (serde or not re.search(r"(?<!\w)%s\b" % p, ts)) and p != "N"]
    if need:
        t = ("Ph<(%s)>" if len(need) > 1 else "Ph<(%s,)>") % ", ".join("&%s ()" % p if p.startswith("'") else p for p in need)
        x.fields.append(F("ph", t, "builder(off)" if serde and s.text.find("builder") >= 0 else "" if serde else "skip"))
    if s.extra:
        m = re.search(r"fn mk_sh\(\) -> (\w+)", s.extra)
        ex = []
        dp = re.sub(r" = [^,>]*", "", x.generics)
        if m:
            ex.append("#[inline(never)] fn mk_sh%s() -> %s%s %s { loop {} }" % (dp, m.group(1), gargs, x.where))
        if "impl Clone" in s.extra:
            ex.append("impl%s Clone for Foo%s %s { #[inline(never)] fn clone(&self) -> Self { loop {} } }" % (dp, gargs, x.where))
        if not ex:
            return None
        x.extra = "\n".join(ex)
    return x


def ok(s):
    if s is None or not cover.legal(s):
        return False
    sm = SM(s)
    t = s.text + " " + " ".join(f.text for f in s.fields)
    for f in sm.fields:
        # `impl Into<T>` of a bare parameter is as good as any; Copy is not in the bounds
        if f.f.ty != "C1" and not f.skip and f.get_mode == "copy":
            return False
    return True


def fixed():
    """A parameter only fields without a part in an item use."""
    out = []
    for m, bd in (("", "Clone + Default"), ("sync", BD), ("r#async", BD)):
        ph = lambda a: F("ph", "Ph<(T,)>", a)
        def sp(note, text, fields, **kw):
            out.append(S(", ".join(x for x in (m, text) if x), fields, generics="<T: %s>" % bd, gargs="<T>", tags={"generic"}, note="%s generic %s" % (m or "plain", note), **kw))
        sp("skipped parameter, builder", "builder", [F("a", "T1", "get"), F("b", "T2", "lazy"), ph("skip")])
        sp("skipped parameter, opt_in builder", "builder(opt_in)", [F("a", "T1", "get"), F("b", "T2", "lazy, builder"), ph("skip")])
        sp("parameter of a field without a setter", "builder", [F("a", "T1", "get"), F("b", "T2", "lazy"), ph("builder(off)")])
        sp("skipped parameter, builder, rc", "builder, rc", [F("a", "T1", "get"), F("b", "T2", "lazy"), ph("skip")])
        clone = " impl<T: %s> Clone for Foo<T> { #[inline(never)] fn clone(&self) -> Self { loop {} } }" % bd
        sp("parameter only a skipped field uses, serde", "serde", [F("a", "T1", "get"), F("b", "T2", "lazy"), ph("skip")], extra=clone)
        sp("parameter only a field out of serde uses", "serde", [F("a", "T1", "get"), F("b", "T2", "get_mut"), ph("get, serde(off)")], extra=clone)
        sp("parameter only a field out of serde uses, builder", "serde, builder", [F("a", "T1", "get"), F("b", "T2", "set"), ph("serde(off)")], extra=clone)
        sp("parameter only a skipped field uses, serde one way", "serde(deserialize(off))", [F("a", "T1", "get"), F("b", "T2", "lazy"), ph("skip")], extra=clone)
        sp("parameter only a skipped field uses, serde other way", "serde(serialize(off))", [F("a", "T1", "get"), F("b", "T2", "clearer"), ph("skip")])
    return out


def samples(n, seed=1):
    r = random.Random("fieldx-generic-%d" % seed)
    out, i = [], 0
    names = list(GENS)
    while len(out) < n:
        i += 1
        s = cover.sample(r, i)
        if not cover.legal(s):
            continue
        s = generalize(s, names[len(out) % len(names)])
        if ok(s):
            out.append(s)
    return out


def serde_samples(n, seed=1):
    r = random.Random("fieldx-generic-serde-%d" % seed)
    out, i = [], 0
    names = list(GENS)
    while len(out) < n:
        i += 1
        s = serde_specs.sample(r, i)
        if not cover.legal(s):
            continue
        g = names[len(out) % len(names)]
        if ("const" in g or g == "all") and s.args["serde"].sub("default") is not None and not s.args["serde"].sub("default").subs:
            continue    # serde's own derive panics on default together with const parameters
        s = generalize(s, g, True)
        if ok(s):
            out.append(s)
    return out
