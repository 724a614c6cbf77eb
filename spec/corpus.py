"""Assemble specimens into corpus crates, run the analysis driver over them in parallel, and index the results."""
import os, re, json
from concurrent.futures import ThreadPoolExecutor
import build, norm
from model import S, F, SM, render

OPQ = '''
/// Opaque user types and functions: nothing is known about them but their names.
pub mod opq {
    #[derive(Clone, Debug, PartialEq, Default)] pub struct T1(u8);
    #[derive(Clone, Debug, PartialEq, Default)] pub struct T2(u8);
    #[derive(Clone, Copy, Debug, PartialEq, Default)] pub struct C1(u8);
    #[derive(Debug, Clone)] pub struct E1; #[derive(Debug, Clone)] pub struct E2; #[derive(Debug, Clone)] pub enum EV { Missing(String), Other(fieldx::error::FieldXError) }
    #[derive(Clone, Debug, PartialEq, Default)] pub struct Cn<const N: usize>(u8);
    #[derive(Clone, Debug, PartialEq, Default)] pub struct Rf<'a>(Option<&'a u8>);
    #[derive(Clone, Debug, PartialEq, Default)] pub struct Rf2<'a, 'b>(Option<&'a u8>, Option<&'b u8>);
    #[derive(Clone, Debug, PartialEq, Default)] pub struct Gn<'a, T, U, const N: usize>(Option<&'a u8>, T, U);
    pub struct Ph<T>(u8, std::marker::PhantomData<fn() -> T>);
    impl<T> Default for Ph<T> { #[inline(never)] fn default() -> Self { loop {} } }
    impl<T> std::fmt::Debug for Ph<T> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
    impl<T> Clone for Ph<T> { #[inline(never)] fn clone(&self) -> Self { loop {} } }
    pub struct ND(u8);
    pub struct NS(*const u8);
    #[derive(Default)] pub struct NY(std::cell::Cell<u8>);
    impl From<C1> for T1 { fn from(_: C1) -> T1 { loop {} } }
    impl From<fieldx::error::FieldXError> for EV { fn from(_: fieldx::error::FieldXError) -> EV { loop {} } }
    impl From<fieldx::error::FieldXError> for E1 { fn from(_: fieldx::error::FieldXError) -> E1 { loop {} } }
    pub fn mk_t1() -> T1 { loop {} }
    pub fn mk_t2() -> T2 { loop {} }
    pub fn mk_c1() -> C1 { loop {} }
    pub fn mk_nd() -> ND { loop {} }
}
'''
# serde's traits on the opaque types (T1, T2, C1), for declarations with the serde argument
SERDE_OPQ = "".join("""
    impl serde::Serialize for opq::%s { #[inline(never)] fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { loop {} } }
    impl<'de> serde::Deserialize<'de> for opq::%s { #[inline(never)] fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { loop {} } }""" % (t, t) for t in ("T1", "T2", "C1", "ND")) + """
    impl<T> serde::Serialize for opq::Ph<T> { #[inline(never)] fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { loop {} } }
    impl<'de, T> serde::Deserialize<'de> for opq::Ph<T> { #[inline(never)] fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { loop {} } }
    impl<'a> serde::Serialize for opq::Rf<'a> { #[inline(never)] fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { loop {} } }
    impl<'de, 'a> serde::Deserialize<'de> for opq::Rf<'a> { #[inline(never)] fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { loop {} } }
    impl<'a, 'b> serde::Serialize for opq::Rf2<'a, 'b> { #[inline(never)] fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { loop {} } }
    impl<'de, 'a, 'b> serde::Deserialize<'de> for opq::Rf2<'a, 'b> { #[inline(never)] fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { loop {} } }
    impl<'a, T, U, const N: usize> serde::Serialize for opq::Gn<'a, T, U, N> { #[inline(never)] fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { loop {} } }
    impl<'de, 'a, T, U, const N: usize> serde::Deserialize<'de> for opq::Gn<'a, T, U, N> { #[inline(never)] fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { loop {} } }
    impl<const N: usize> serde::Serialize for opq::Cn<N> { #[inline(never)] fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { loop {} } }
    impl<'de, const N: usize> serde::Deserialize<'de> for opq::Cn<N> { #[inline(never)] fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { loop {} } }
"""


MODULE = re.compile(r"\bspecs::(\w+)")


class Result:
    def __init__(self):
        self.spec, self.ok, self.errors = None, False, []
        self.fns, self.structs, self.impls, self.others, self.outcomes = [], [], [], [], {}


def specs_text(mods, features=()):
    parts = ["use fieldx::fxstruct;", OPQ + (SERDE_OPQ if "serde" in features else "")]
    line = sum(p.count("\n") + 1 for p in parts)
    ranges = {}
    for name, text in mods:
        body = "pub mod %s {\nuse super::opq::*; use super::opq; use fieldx::fxstruct;%s\n%s\n}" % (name, " use serde::{Serialize, Deserialize};" if "serde" in text else "", text)
        n = body.count("\n") + 1
        ranges[name] = (line + 1, line + n)
        line += n
        parts.append(body)
    return "\n".join(parts), ranges


def err_line(e):
    """Line of specs.rs an error belongs to (through macro expansions)."""
    def walk(sp):
        if sp.get("file_name", "").endswith("specs.rs"):
            return sp["line_start"]
        x = sp.get("expansion")
        return walk(x["span"]) if x else None
    for sp in sorted(e.get("spans", []), key=lambda s: not s.get("is_primary")):
        l = walk(sp)
        if l:
            return l
    for c in e.get("children", []):
        for sp in c.get("spans", []):
            l = walk(sp)
            if l:
                return l
    return None


def run_group(gname, mods, features, flags, facts_only=False):
    """mods: [(modname, text)].  Returns {modname: errors} for those that do not compile, and the JSON for the rest."""
    bad = {}
    todo = list(mods)
    for attempt in range(12):
        if not todo:
            return bad, None, {}
        text, ranges = specs_text(todo, features)
        lib = build.write_crate(gname, text, features)
        j, errs = build.run_driver(gname, lib, flags, features, facts_only=facts_only)
        if j is not None:
            return bad, j, ranges
        hit = {}
        glob = []
        for e in errs:
            if not e.get("spans") and e.get("message", "").startswith(("aborting due to", "could not compile")):
                continue
            l = err_line(e)
            m = next((n for n, (a, b) in ranges.items() if l and a <= l <= b), None)
            if m:
                hit.setdefault(m, []).append(e["message"] + (" [%s]" % e["code"]["code"] if e.get("code") else ""))
            else:
                glob.append(e.get("rendered") or e.get("message"))
        if not hit:
            raise build.TreeError("corpus does not compile:\n" + "\n".join(glob)[:4000])
        for m, es in hit.items():
            bad[m] = es
        todo = [t for t in todo if t[0] not in bad]
    raise build.Broken("too many rounds of compile errors in " + gname)


def by_module(items, key):
    """{specimen module: the items whose path mentions it}, in order."""
    d = {}
    for x in items:
        for m in set(MODULE.findall(x[key])):
            d.setdefault(m, []).append(x)
    return d


def prepare(specs, features, groups=8):
    """Build what the corpus needs, and deal the specimens into groups."""
    build.driver()
    flags = build.deps(list(features))
    for i, s in enumerate(specs):
        if s.mod is None:
            s.mod = "s%03d" % i
    n = max(1, min(groups, (len(specs) + 3) // 4))
    parts = [[] for _ in range(n)]
    for i, s in enumerate(specs):
        parts[i % n].append(s)
    return flags, parts


def results(part, bad, j, ranges):
    """{mod: Result} for one analysed group."""
    res = {}
    idx = {}
    if j is not None:
        norm.learn_shapes(j["facts"]["structs"])
        idx = {n: by_module(j["facts"][n], key) for n, key in (("fns", "path"), ("structs", "path"), ("impls", "module"), ("others", "path"))}
        idx["outcomes"] = by_module(j["fns"], "path")
    for s in part:
        r = res[s.mod] = Result()
        r.spec = s
        if s.mod in bad:
            r.errors = bad[s.mod]
        elif j is not None:
            r.ok = True
            r.fns, r.structs, r.impls, r.others = (idx[n].get(s.mod, []) for n in ("fns", "structs", "impls", "others"))
            for f in idx["outcomes"].get(s.mod, []):
                r.outcomes.setdefault(f["path"].replace("::r#", "::"), f)
    return res


def analyse_group(k, part, features, flags, tag, facts_only=False):
    return results(part, *run_group("%s_%d" % (tag, k), [(s.mod, render(s)) for s in part], list(features), flags, facts_only))


def analyse(specs, features=("sync", "async", "serde"), tag="c", groups=8, facts_only=False):
    """Run the driver over all specimens; returns {mod: Result}."""
    flags, parts = prepare(specs, features, groups)
    res = {}
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda k: analyse_group(k, parts[k], features, flags, tag, facts_only), range(len(parts))):
            res.update(r)
    return res
