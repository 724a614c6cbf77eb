"""Fields of every shape of type the language offers: what a helper does must not depend on it."""
import re
import specimens
from model import S, render
from specimens import fl, j, ARGS

TYPES = [
    "Option<T1>", "[T1; 2]", "(T1, T2)", "fn(T1) -> T2", "Vec<T1>", "String", "std::boxed::Box<T1>",
    "std::collections::HashMap<u32, T1>", "std::result::Result<T1, T2>", "std::marker::PhantomData<T1>",
    "std::sync::Arc<T1>", "Vec<Option<T1>>", "Option<Option<T1>>", "bool", "u32",
    "std::boxed::Box<dyn Fn(u32) -> u32 + Send + Sync>", "std::option::Option<&'static T1>",
]
CLONABLE = {"Vec<T1>", "String"}
COPY = {"bool", "u32", "fn(T1) -> T2"}
ALL = "get, get_mut, set, clearer, predicate"


# a module whose own items shadow everything in the prelude: generated code may not lean on unqualified names
SHADOW = """
#[allow(dead_code, non_camel_case_types)] mod shadow {
    pub struct Option; pub struct Result; pub struct Box; pub struct String; pub struct Vec; pub struct drop;
    pub struct Some; pub struct None; pub struct Ok; pub struct Err;
    pub trait Default {} pub trait Clone {} pub trait Copy {} pub trait Send {} pub trait Sync {} pub trait Unpin {}
    pub trait From {} pub trait Into {} pub trait TryFrom {} pub trait TryInto {} pub trait Iterator {} pub trait IntoIterator {}
    pub trait Fn {} pub trait FnMut {} pub trait FnOnce {} pub trait AsRef {} pub trait AsMut {} pub trait Drop {} pub trait PartialEq {} pub trait ToString {} pub trait ToOwned {}
}
#[allow(unused_imports)] use shadow::*;
"""


PRELUDE = r"(?<![:\w])(Option|Result|Box|String|Vec|drop|Some|None|Ok|Err|Default|Clone|Copy|Send|Sync|Sized|Unpin|From|Into|TryFrom|TryInto|Iterator|IntoIterator|Fn|FnMut|FnOnce|AsRef|AsMut|Drop|PartialEq|ToString|ToOwned)\b"


def shadowed(every=7):
    out = []
    for m in ("plain", "sync", "async"):
        A, rw = ARGS[m], "reader, writer" if m != "plain" else ""
        k4 = "lock" if m != "plain" else "inner_mut"
        H = "get, get_mut, set, clearer, predicate"
        for x in ("", "builder", "rc, builder", "serde", "serde, builder", "builder(post_build)", "builder(post_build, error(E1))", "builder(error(EV, EV::Missing))", "builder(into), set(into)", "builder(opt_in)", "no_new", "copy", "clone", "default(off)"):
            if m == "async" and "serde" in x:
                continue
            post = ["#[inline(never)] fn post_build(self) -> %s { loop {} }" % ("std::result::Result<Self, E1>" if "error" in x else "Self")] if "post_build" in x else []
            t1, t2, v = ("C1", "C1", "mk_c1()") if x == "copy" else ("T1", "T2", "mk_t1()")
            fs = [fl("bar", j("lazy", H, rw), t1), fl("baz", j("optional", H, rw), t2), fl("qux", j("get, get_mut, set", rw, "default(%s)" % v), t1), fl("cp", "get(copy), set", "C1"), fl("oth", j(k4, "get, set"), t1), fl("opt", j(k4, "optional", H), t2), fl("lazd", j("lazy", H, "default(%s)" % v), t1)]
            if "serde" not in x and x != "copy":
                fs.append(fl("fal", j("lazy, fallible(error(E1)), get, get_mut", rw), "T2"))
            if x not in ("serde", "copy", "no_new", "default(off)"):
                fs.append(fl("clo", j("optional, get(clone)", rw), "T1"))
            extra = SHADOW + (" impl std::clone::Clone for Foo { #[inline(never)] fn clone(&self) -> Self { loop {} } }" if "serde" in x else "")
            out.append(S(j(A, x), fs, tags={"helpers", "shadow"} | ({"ctor"} if "builder" in x else {"rc"} if "rc" in x else {"serde"} if x == "serde" else set()), extra=extra, user=post, note="shadowed prelude %s %s" % (m, x)))
    # and the ordinary declarations, in such a module (those whose user-written part does without the prelude)
    for s in specimens.default_set(False)[3::every]:
        if s.expect == "ok" and not s.extra and not s.derives and not re.search(PRELUDE, render(s)):
            s.extra, s.note = SHADOW, "shadowed prelude: " + s.note
            s.tags |= {"shadow"}
            out.append(s)
    return out


def specs(full=True):
    out = shadowed()
    for m in ("plain", "sync", "async"):
        A, rw = ARGS[m], "reader, writer" if m != "plain" else ""
        for ty in TYPES:
            d = "no_new, default(off)"
            out.append(S(j(A, d), [fl("bar", j("lazy", ALL, rw), ty), fl("baz", j("optional", ALL, rw), ty), fl("qux", j("get, get_mut, set", rw), ty)], tags={"helpers"}, note="type %s %s" % (m, ty)))
            out.append(S(j(A, d, "builder"), [fl("bar", j("lazy, get, set, into"), ty), fl("baz", "optional, get, set", ty), fl("qux", "get, set", ty)], tags={"ctor"}, note="type builder %s %s" % (m, ty)))
            if ty in CLONABLE:
                out.append(S(j(A, d, "clone"), [fl("bar", "lazy, get", ty), fl("baz", "optional, get", ty), fl("qux", j("get", rw), ty)], tags={"helpers"}, note="type clone %s %s" % (m, ty)))
            if ty in COPY:
                out.append(S(j(A, d, "copy"), [fl("bar", "lazy, get", ty), fl("baz", "optional, get", ty), fl("qux", j("get", rw), ty)], tags={"helpers"}, note="type copy %s %s" % (m, ty)))
            if m == "plain":
                out.append(S(d, [fl("bar", "inner_mut, get, get_mut, set", ty), fl("baz", j("inner_mut, optional", ALL), ty)], tags={"helpers"}, note="type inner %s" % ty))
        # fields named like the variables, types and methods the generated code uses itself
        for names in (("value", "old", "wlock", "rlock"), ("this", "me", "field_manual_value", "guard"), ("_under", "camelCase", "x1", "data"), ("is_set", "read", "write", "lazy_init"), ("get", "set", "take", "replace"), ("r#type", "r#match", "r#loop", "r#move"), ("default", "clone", "into", "from")):
            tys = ("T1", "T2", "T1", "T2")
            N = "no_new, default(off)"
            kinds = ("lazy", "optional", "", j("lock" if m != "plain" else "inner_mut"))
            out.append(S(j(A, N, "set"), [fl(n, j(k, "get, get_mut", "clearer, predicate" if k in ("lazy", "optional") else "", rw if k != "" else ""), ty) for n, k, ty in zip(names, kinds, tys)], tags={"helpers"}, note="names %s %s" % (m, names[0])))
            if names[0] not in ("default",):
                out.append(S(j(A, "builder, rc"), [fl(n, k, ty) for n, k, ty in zip(names, kinds, tys)], tags={"ctor", "rc"}, note="names builder %s %s" % (m, names[0])))
    return out
