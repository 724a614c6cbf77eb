"""C38: what the argument types of `fieldx_aux` answer.

`fieldx_aux` is an ordinary library crate (the building blocks of the attribute arguments), so the
same MIR interpreter that summarises generated helpers can summarise its functions.  Thin client
functions call its public API on *unknown* arguments; the interpreter enumerates the paths through
the crate's current sources; the table below says what each call must answer in every abstract world
(which flags are given, which sub-arguments are present, how many literals of which kind), and every
path is compared with every world it is consistent with.
"""
import functools
import itertools
import re

import build

LITS = ["Str", "ByteStr", "CStr", "Byte", "Char", "Int", "Float", "Bool", "Verbatim"]


# ---------------------------------------------------------------- normal form of names

def close(s, i):
    d = 0
    while i < len(s):
        d += s[i] in "([{<"
        # `->`/`=>` do not occur in names
        d -= s[i] in ")]}>"
        if d == 0:
            return i
        i += 1
    return len(s) - 1


@functools.lru_cache(100000)
def canon(s):
    """Drop references and smart-pointer steps, name `Some`'s content by `!`."""
    out = ""
    i = 0
    while i < len(s):
        if s.startswith("(*", i):
            j = close(s, i)
            out += canon(s[i + 2:j])
            i = j + 1
            continue
        m = re.match(r"(?:deref|as_ref|borrow|core::borrow::Borrow::borrow)\(", s[i:])
        if m and (i == 0 or not re.match(r"[\w:]", s[i - 1])):
            j = close(s, i + m.end() - 1)
            out += canon(s[i + m.end():j])
            i = j + 1
            continue
        if s[i] == "&":
            i += 1
            continue
        out += s[i]
        i += 1
    return out.replace("@Some.0", "!")


def plain(r):
    """Return value -> nested tuples with canonical names."""
    if not isinstance(r, list) or not r:
        return r
    k = r[0]
    if k == "enum":
        return (r[1],) + tuple(plain(x) for x in r[2])
    if k == "int":
        return r[1]
    if k == "str":
        return ("str", r[1])
    if k == "sym":
        return canon(r[1])
    if k == "ref":
        return plain(r[2]) if len(r) > 2 else canon(r[1])
    if k == "struct":
        return (r[1], {n: plain(x) for n, x in r[2].items()})
    if k == "tup":
        return ("tup",) + tuple(plain(x) for x in r[1])
    return ("?", repr(r))


# ---------------------------------------------------------------- what a condition says in a world

OPS = {"Gt": lambda a, b: a > b, "Lt": lambda a, b: a < b, "Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Ge": lambda a, b: a >= b, "Le": lambda a, b: a <= b}


def length_of(e, w):
    m = re.match(r"(?:alloc::vec::Vec::len|ptrmeta|core::slice::len|syn::punctuated::Punctuated::len|len)\((.*)\)$", e)
    if m:
        return w.get("len " + m.group(1))
    return int(e) if re.match(r"\d+$", e) else None


def says(key, w):
    """The value a path condition must have in world w, or None when it is not about w's facts."""
    k = canon(key)
    m = re.match(r"darling_core::util::flag::Flag::is_present\((.*)\)$", k)
    if m:
        v = w.get(m.group(1))
        return None if v is None else str(int(v))
    m = re.match(r"(Gt|Lt|Eq|Ne|Ge|Le)\((.*),([^,()]+)\)$", k)
    if m:
        a, b = length_of(m.group(2), w), length_of(m.group(3), w)
        if a is not None and b is not None:
            return str(int(OPS[m.group(1)](a, b)))
    m = re.match(r"(?:alloc::vec::Vec|core::slice|slice)?:*is_empty\((.*)\)$", k)
    if m and "len " + m.group(1) in w:
        return str(int(w["len " + m.group(1)] == 0))
    # the first element: indexing, iteration, first()
    m = re.match(r"(?:next\(core::slice::iter::Iter::new\((\w+)\)\)|core::slice::first\((\w+)\)|first\((\w+)\)|get\((\w+),0\))(!?)$", k)
    if m:
        a = next(x for x in m.groups()[:4] if x)
        if "len " + a in w:
            if not m.group(5):
                return "v1" if w["len " + a] else "v0"
            k = "index(%s,0)" % a
    for name, v in w.items():
        if callable(v):
            x = v(k)
            if x is not None:
                return str(x)
    v = w.get(k)
    return None if v is None else ("v%d" % v if not isinstance(v, bool) else str(int(v)))


# ---------------------------------------------------------------- clients

class Client:
    def __init__(self, name, src, dom, want, what):
        self.name, self.src, self.dom, self.want, self.what = name, src, dom, want, what

    def worlds(self):
        ks = list(self.dom)
        for vs in itertools.product(*(self.dom[k] for k in ks)):
            yield dict(zip(ks, vs))


class Is:
    def __init__(self, text, f):
        self.text, self.f = text, f

    def __call__(self, r):
        return self.f(r)


def kind(r):
    return r[0] if isinstance(r, tuple) else r


none = Is("None", lambda r: r == ("None",))
err = Is("an error", lambda r: kind(r) == "Err")
true = Is("true", lambda r: r == 1)
false = Is("false", lambda r: r == 0)
anyv = Is("anything", lambda r: True)


def boolean(b):
    return true if b else false


def some(p):
    return Is("Some(%s)" % p.text, lambda r: kind(r) == "Some" and p(r[1]))


def ok(p=anyv):
    return Is("Ok(%s)" % p.text, lambda r: kind(r) == "Ok" and p(r[1]))


def eq(x):
    return Is(str(x), lambda r: r == x)


def variant(x):
    return Is(x, lambda r: r == (x,))


def field(r, name, want):
    """The named private field, or under another name any field, holds `want`."""
    return r[1][name] == want if name in r[1] else want in r[1].values()


def strip_calls(s):
    m = re.match(r"(?:clone|alloc::string::String::as_str|as_str|to_string|to_owned|into|from)\((.*)\)$", s)
    return strip_calls(m.group(1)) if m else s


def part(*ends):
    """The stored value found along a path whose steps are `ends` (private field names in between do not matter)."""
    rx = re.compile(r"^" + r"(?:!|\.\w+)*?\.".join(re.escape(e) for e in ends) + r"!?$")
    return Is("the stored %s" % "/".join(ends), lambda r: isinstance(r, str) and rx.match(strip_calls(r)) is not None)


def listed(r):
    """`forward_attrs` is searched for the attribute's path; None: some other way of asking."""
    if isinstance(r, int):
        return False
    asks = re.match(r"(not\()?(?:\w+::)*\w*(contains|any)\(", str(r))
    if not asks:
        return None
    return not asks.group(1) and "syn::attr::Attribute::path(arg2)" in r and "arg1.forward_attrs!" in r


FLAG = [False, True]
OPT = [0, 1]
out = []


def client(name, sig, dom, want, what):
    out.append(Client(name, "pub fn %s%s" % (name, sig), dom, want, what))


INT = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"]
KINDS = {**{t: "Int" for t in INT}, "f32": "Float", "f64": "Float", "String": "Str", "Vec<u8>": "ByteStr", "char": "Char", "bool": "Bool"}


def lit_dom(lens=(0, 1, 2, 3)):
    return {"len arg2": list(lens), "index(arg2,0)": list(range(9)), "index(arg2,1)": [0]}


def struct(name, fields):
    """A struct of that name; `fields` are checked, the others come from the receiver unchanged."""
    def f(r):
        if not (kind(r) == name and isinstance(r[1], dict)):
            return False
        todo = dict(fields)
        for k, v in r[1].items():
            # private fields may go by other names
            x = k if k in todo else next((y for y in todo if y not in r[1]), None) if v != "arg1." + k else None
            if x is not None:
                if not todo.pop(x)(v):
                    return False
            elif v != "arg1." + k:
                return False
        return not todo
    return Is("%s{%s, the rest unchanged}" % (name, ", ".join("%s: %s" % (k, v.text) for k, v in fields.items())), f)


same = Is("the receiver, unchanged", lambda r: r == "arg1")


def mk():
    del out[:]
    P = "&syn::Path"
    V = "alloc::vec::Vec"
    # ---- literal values
    for t in KINDS:
        n = re.sub(r"\W", "", t).lower()
        k = LITS.index(KINDS[t])
        d = lit_dom((1, 2, 3))

        def parsed(key, k=k):
            return None
        if KINDS[t] in ("Int", "Float"):
            d["parse"] = [0, 1]

        def want(w, t=t, k=k):
            if w["len arg2"] > 1 or w["index(arg2,0)"] != k:
                return err
            rx = re.compile(r"syn::lit::Lit%s::(?:value|base10_parse)\((?:index\(arg2,0\)|next\(core::slice::iter::Iter::new\(arg2\)\)!|first\(arg2\)!)@%s\.0\)(?:@Ok\.0)?$" % (KINDS[t].replace("Bool", "Bool"), KINDS[t]))
            if w.get("parse") == 1:
                return err
            if t == "bool":
                lit = Is("the literal's value", lambda r: isinstance(r, str) and "index(arg2,0)@Bool.0" in r)
            else:
                lit = Is("the literal's value", lambda r: isinstance(r, str) and rx.search(r) is not None)
            return ok(struct("FXValueArg", {"value": some(lit)}))
        client("lit_" + n, "(x: FXValueArg<%s>, l: &Vec<syn::Lit>) -> darling::Result<FXValueArg<%s>> { x.set_literals(l) }" % (t, t), d, want, "a `%s` argument takes exactly one %s literal and keeps its value" % (t, KINDS[t]))
        client("kw_" + n, "(p: %s) -> darling::Result<FXValueArg<%s>> { <FXValueArg<%s> as FromNestAttr>::for_keyword(p) }" % (P, t, t), {}, lambda w: err, "a `%s` argument without a value is rejected" % t)
    client("lit_unit", "(x: FXValueArg<(), true>, l: &Vec<syn::Lit>) -> darling::Result<FXValueArg<(), true>> { x.set_literals(l) }", lit_dom(), lambda w: err if w["len arg2"] else ok(same), "a trigger argument takes no literals")
    client("kw_unit", "(p: %s) -> darling::Result<bool> { <FXValueArg<(), true> as FromNestAttr>::for_keyword(p).map(|x| x.is_true()) }" % P, {"default<darling_core::util::flag::Flag>": [False]}, lambda w: ok(true), "a trigger given as a keyword is on")
    client("kw_syn", "(p: %s) -> darling::Result<bool> { <FXValueArg<FXSynValueArg<syn::Ident>> as FromNestAttr>::for_keyword(p).map(|x| x.value().is_none()) }" % P, {"default<darling_core::util::flag::Flag>": [False]}, lambda w: ok(true), "a keyword-only syntax value has no value")
    for t, ty in (("u8", "u8"), ("str", "String")):
        client("value_" + t, "(x: &FXValueArg<%s>) -> Option<&%s> { x.value() }" % (ty, ty), {"arg1.off": FLAG, "arg1.value": OPT}, lambda w: some(part("arg1.value")) if w["arg1.value"] and not w["arg1.off"] else none, "value() is the literal, unless the argument is `off`")
        client("on_" + t, "(x: &FXValueArg<%s>) -> bool { x.is_true() }" % ty, {"arg1.off": FLAG}, lambda w: boolean(not w["arg1.off"]), "is_true() is false exactly for `off`")
        client("from_" + t, "(x: %s) -> FXValueArg<%s> { x.into() }" % (ty, ty), {}, lambda w: Is("an argument that holds the value", lambda r: kind(r) == "FXValueArg" and r[1].get("value", ("Some", "arg1")) == ("Some", "arg1")), "From<T> keeps the value")
        client("fxfrom_" + t, "(x: Option<%s>) -> FXValueArg<%s> { x.fx_into() }" % (ty, ty), {"arg1": OPT}, lambda w: Is("an argument that holds the option", lambda r, w=w: kind(r) == "FXValueArg" and r[1].get("value", "arg1") in ("arg1", ("Some", "arg1!") if w["arg1"] else ("None",))), "FXFrom<Option<T>> keeps the option")

    # ---- helpers
    H = [("base", "FXBaseHelper", "<false>", "<true>"), ("acc", "FXAccessorHelper", "<false>", "<true>"), ("set", "FXSetterHelper", "<false>", "<true>"), ("bld", "FXBuilderHelper", "<true>", None), ("fbld", "FXBuilderHelper", "<false>", None)]
    for n, ty, g, only in H:
        T = ty + g
        stored = Is("Some(the literal's value)", lambda r: kind(r) == "Some" and re.search(r"syn::lit::LitStr::value\((?:index\(arg2,0\)|next\(core::slice::iter::Iter::new\(arg2\)\)!)@Str\.0\)", str(r)) is not None)
        client(n + "_lit", "(x: %s, l: &Vec<syn::Lit>) -> darling::Result<%s> { x.set_literals(l) }" % (T, T), lit_dom(), lambda w, ty=ty, stored=stored: err if w["len arg2"] > 1 or (w["len arg2"] and w["index(arg2,0)"]) else ok(struct(ty, {"name": stored})) if w["len arg2"] else ok(same), "a helper takes at most one literal, a string: the helper's name")
        if only:
            client(n + "_litb", "(x: %s, l: &Vec<syn::Lit>) -> darling::Result<%s> { x.set_literals(l) }" % (ty + only, ty + only), lit_dom((1, 2)), lambda w: err, "a BOOL_ONLY helper takes no literals")
        client(n + "_kw", "(p: %s) -> darling::Result<bool> { <%s as FromNestAttr>::for_keyword(p).map(|x| x.is_true()) }" % (P, T), {"default<darling_core::util::flag::Flag>": [False]}, lambda w: ok(true), "a helper given as a keyword is on")
        client(n + "_kwn", "(p: %s) -> darling::Result<bool> { <%s as FromNestAttr>::for_keyword(p).map(|x| x.name().is_none() && x.public_mode().is_none() && x.attributes_fn().is_none()) }" % (P, T), {}, lambda w: ok(true), "a helper given as a keyword has no name, visibility or attributes")
        client(n + "_on", "(x: &%s) -> bool { x.is_true() }" % T, {"arg1.off": FLAG}, lambda w: boolean(not w["arg1.off"]), "is_true() is false exactly for `off`")
        client(n + "_name", "(x: &%s) -> Option<&str> { x.name() }" % T, {"arg1.name": OPT, "arg1.name!.inner.off": FLAG, "arg1.name!.inner.value": OPT}, lambda w: some(part("arg1.name", "value")) if w["arg1.name"] and w["arg1.name!.inner.value"] and not w["arg1.name!.inner.off"] else none, "name() is the given name")
        vis(n, T)
        for a in ("attributes", "attributes_fn"):
            if a == "attributes" and ty != "FXBuilderHelper":
                client(n + "_" + a, "(x: &%s) -> Option<&FXAttributes> { x.%s() }" % (T, a), {}, lambda w: none, "helpers without a type of their own carry no type attributes")
            else:
                client(n + "_" + a, "(x: &%s) -> Option<&FXAttributes> { x.%s() }" % (T, a), {"arg1." + a: OPT}, lambda w, a=a: some(part("arg1." + a)) if w["arg1." + a] else none, "%s() are the given attributes" % a)
    client("acc_mode", "(x: &FXAccessorHelper) -> Option<FXAccessorMode> { x.mode() }", {"arg1.clone": FLAG, "arg1.copy": FLAG, "arg1.as_ref": FLAG}, lambda w: None if sum(map(int, w.values())) > 1 else some(variant("Clone")) if w["arg1.clone"] else some(variant("Copy")) if w["arg1.copy"] else some(variant("AsRef")) if w["arg1.as_ref"] else none, "mode() is the one mode given")
    client("acc_span", "(x: &FXAccessorHelper) -> bool { x.mode_span().is_some() }", {"arg1.clone": FLAG, "arg1.copy": FLAG, "arg1.as_ref": FLAG}, lambda w: None if sum(map(int, w.values())) > 1 else boolean(any(w.values())), "mode_span() exists exactly when a mode is given")
    client("set_into", "(x: &FXSetterHelper) -> Option<bool> { x.is_into() }", {"arg1.into": OPT}, lambda w: Is("the given `into`", lambda r: r in ("arg1.into", ("Some", "arg1.into!") if w["arg1.into"] else ("None",))), "is_into() is the given `into`")
    for n, g in (("bld", "<true>"), ("fbld", "<false>")):
        T = "FXBuilderHelper" + g
        for f, m in (("into", "is_into"), ("required", "is_required")):
            client("%s_%s" % (n, f), "(x: &%s) -> Option<bool> { x.%s() }" % (T, m), {"arg1." + f: OPT, "arg1.%s!.inner.off" % f: FLAG}, lambda w, f=f: none if not w["arg1." + f] else some(boolean(not w["arg1.%s!.inner.off" % f])), "%s() says whether `%s` is given, and on" % (m, f))
        client(n + "_optin", "(x: &%s) -> bool { x.is_builder_opt_in() }" % T, {"arg1.opt_in": OPT, "arg1.opt_in!.inner.off": FLAG}, lambda w: boolean(w["arg1.opt_in"] and not w["arg1.opt_in!.inner.off"]), "is_builder_opt_in() needs `opt_in`, on")
        client(n + "_post", "(x: &%s) -> bool { x.has_post_build() }" % T, {"arg1.post_build": OPT}, lambda w: boolean(w["arg1.post_build"]), "has_post_build() says whether `post_build` is given")
        client(n + "_impl", "(x: &%s) -> Option<&FXAttributes> { x.attributes_impl() }" % T, {"arg1.attributes_impl": OPT}, lambda w: some(part("arg1.attributes_impl")) if w["arg1.attributes_impl"] else none, "attributes_impl() are the given attributes")
        client(n + "_valid", "(x: &%s) -> bool { x.validate().is_err() }" % T, {"arg1.error": OPT, "arg1.post_build": OPT, "arg1.opt_in": OPT}, lambda w, n=n: boolean(n == "fbld" and any(w.values())), "`error`, `post_build` and `opt_in` are struct-level only")

    # ---- serde
    S = "&FXSerdeHelper"
    sd = {"arg1.off": FLAG, "arg1.serialize": OPT, "arg1.serialize!.inner.off": FLAG, "arg1.deserialize": OPT, "arg1.deserialize!.inner.off": FLAG}

    def tri(w, k):
        return None if not w["arg1." + k] else not w["arg1.%s!.inner.off" % k]

    def needs(a, b):
        def f(w):
            x, y = tri(w, a), tri(w, b)
            return some(boolean(x)) if x is not None else some(boolean(not y)) if y is not None else none
        return f
    client("serde_ser", "(x: %s) -> Option<bool> { x.needs_serialize() }" % S, dict(list(sd.items())[1:]), needs("serialize", "deserialize"), "needs_serialize() is `serialize`, or the opposite of `deserialize`")
    client("serde_de", "(x: %s) -> Option<bool> { x.needs_deserialize() }" % S, dict(list(sd.items())[1:]), needs("deserialize", "serialize"), "needs_deserialize() is `deserialize`, or the opposite of `serialize`")

    def is_serde(w):
        if w["arg1.off"]:
            return some(false)
        x, y = tri(w, "serialize"), tri(w, "deserialize")
        return none if x is None and y is None else some(boolean((True if x is None else x) or (True if y is None else y)))
    client("serde_is", "(x: %s) -> Option<bool> { x.is_serde() }" % S, sd, is_serde, "is_serde(): `off` wins; otherwise one direction at least is on")
    client("serde_on", "(x: %s) -> bool { x.is_true() }" % S, {"arg1.off": FLAG}, lambda w: boolean(not w["arg1.off"]), "is_true() is false exactly for `off`")
    client("serde_attr", "(x: %s, a: &syn::Attribute) -> bool { x.accepts_attr(a) }" % S, {"arg1.forward_attrs": OPT}, lambda w: true if not w["arg1.forward_attrs"] else Is("whether the list has the attribute's path", listed), "without forward_attrs every attribute is accepted, otherwise the listed ones")
    dd = {"arg1.default_value": OPT, "arg1.default_value!.off": FLAG, "arg1.default_value!.value": OPT}
    client("serde_hasdef", "(x: %s) -> bool { x.has_default() }" % S, dict(list(dd.items())[:2]), lambda w: boolean(w["arg1.default_value"] and not w["arg1.default_value!.off"]), "has_default() needs `default`, on")
    client("serde_def", "(x: %s) -> Option<&darling::ast::NestedMeta> { x.default_value() }" % S, dd, lambda w: some(part("arg1.default_value", "value")) if w["arg1.default_value"] and not w["arg1.default_value!.off"] and w["arg1.default_value!.value"] else none, "default_value() is the given default, unless `off`")
    client("serde_raw", "(x: %s) -> Option<&FXDefault<true>> { x.default_value_raw() }" % S, {"arg1.default_value": OPT}, lambda w: some(part("arg1.default_value")) if w["arg1.default_value"] else none, "default_value_raw() is `default` as given")
    client("serde_shadow", "(x: %s) -> Option<&String> { x.shadow_name() }" % S, {"arg1.shadow_name": OPT, "arg1.shadow_name!.inner.off": FLAG, "arg1.shadow_name!.inner.value": OPT}, lambda w: some(part("arg1.shadow_name", "value")) if w["arg1.shadow_name"] and w["arg1.shadow_name!.inner.value"] and not w["arg1.shadow_name!.inner.off"] else none, "shadow_name() is the given name")
    client("serde_lit", "(x: FXSerdeHelper, l: &Vec<syn::Lit>) -> darling::Result<FXSerdeHelper> { x.set_literals(l) }", lit_dom(), lambda w, stored=Is("Some(the literal)", lambda r: kind(r) == "Some" and "LitStr::value(" in str(r)): err if w["len arg2"] > 1 or (w["len arg2"] and w["index(arg2,0)"]) else ok(struct("FXSerdeHelper", {"shadow_name": stored})) if w["len arg2"] else ok(same), "serde takes at most one literal: the shadow struct's name")
    client("serde_kw", "(p: %s) -> darling::Result<bool> { <FXSerdeHelper as FromNestAttr>::for_keyword(p).map(|x| x.is_true() && x.is_serde().is_none() && x.shadow_name().is_none() && !x.has_default()) }" % P, {"default<darling_core::util::flag::Flag>": [False]}, lambda w: ok(true), "`serde` as a keyword: on, nothing else said")
    vis("serde", "FXSerdeHelper")

    # ---- fallible
    client("fall_on", "(x: &FXFallible) -> bool { x.is_true() }", {"arg1.off": FLAG}, lambda w: boolean(not w["arg1.off"]), "is_true() is false exactly for `off`")
    client("fall_kw", "(p: %s) -> darling::Result<bool> { <FXFallible as FromNestAttr>::for_keyword(p).map(|x| x.is_true() && x.error_type().is_none()) }" % P, {"default<darling_core::util::flag::Flag>": [False]}, lambda w: ok(true), "`fallible` as a keyword: on, no error type of its own")
    client("fall_err", "(x: &FXFallible) -> bool { x.error_type().is_some() }", {"arg1.error_type": OPT}, lambda w: boolean(w["arg1.error_type"]), "error_type() is the given type")
    client("fall_errv", "(x: &FXFallible<FXString>) -> Option<&FXString> { x.error_type() }", {"arg1.error_type": OPT}, lambda w: some(part("arg1.error_type")) if w["arg1.error_type"] else none, "error_type() is the given type")

    # ---- public / private
    client("pm_kw", "(p: %s) -> darling::Result<FXPubMode> { <FXPubMode as FromNestAttr>::for_keyword(p) }" % P, {}, lambda w: ok(variant("All")), "`public` alone is `pub`")
    client("pm_lit", "(x: FXPubMode, l: &Vec<syn::Lit>) -> darling::Result<FXPubMode> { x.set_literals(l) }", lit_dom(), lambda w: err, "`public` takes no literals")
    out.append(Client("pm", "pub fn pm(a: &Option<FXNestingAttr<FXPubMode>>, b: &Option<FXBool>) -> Option<FXPubMode> { public_mode(a, b) }", {"arg1": OPT, "arg1!.inner": [0, 1, 2, 3, 4], "arg2": OPT, "arg2!.inner.off": FLAG}, pubmode("arg1", "arg2"), "`private` wins, then the `public` mode"))

    # ---- default
    for n, o in (("dft", "false"), ("dfto", "true")):
        T = "FXDefault<%s>" % o
        ld = {"len arg1": [0, 1, 2, 3, 4], "index(arg1,0)": [0, 1], "index(arg1,0)@Meta.0": [0, 1, 2], "word": ["off", "off::x", "other"]}

        def word(k):
            return None

        def want(w, o=o):
            n = w["len arg1"]
            first = "clone(index(arg1,0))"

            def res(off, v):
                return ok(Is("off=%s, value %s" % (off, v), lambda r: kind(r) == "FXDefault" and isinstance(r[1], dict) and field(r, "off", int(off)) and field(r, "value", ("Some", v) if v else ("None",))))
            if n == 0:
                return res(False, None) if o == "true" else err
            if n == 1:
                # `default(off)` is taken as a value here, see DESIGN
                return None if w["index(arg1,0)"] == 0 and w["index(arg1,0)@Meta.0"] == 0 and w["word"] == "off" else res(False, first)
            if n > 2:
                return err
            return res(True, "clone(index(arg1,1))") if w["index(arg1,0)"] == 0 and w["index(arg1,0)@Meta.0"] == 0 and w["word"] == "off" else err
        client(n + "_list", "(x: &[darling::ast::NestedMeta]) -> darling::Result<%s> { <%s as darling::FromMeta>::from_list(x) }" % (T, T), ld, want, "default takes one value, or `off` and a value")
        client(n + "_word", "() -> darling::Result<%s> { <%s as darling::FromMeta>::from_word() }" % (T, T), {}, lambda w, o=o: err if o == "false" else ok(Is("on, without a value", lambda r: kind(r) == "FXDefault" and field(r, "off", 0) and field(r, "value", ("None",)))), "`default` alone: rejected unless the value is optional")
        client(n + "_on", "(x: &%s) -> bool { x.is_true() }" % T, {"arg1.off": FLAG}, lambda w: Is("not off", lambda r: r == int(not w["arg1.off"]) or re.match(r"not\(arg1\.\w+\)$", str(r)) is not None), "is_true() is the opposite of `off`")
        client(n + "_has", "(x: &%s) -> bool { x.has_value() }" % T, {"arg1.value": OPT}, lambda w: boolean(w["arg1.value"]), "has_value() says whether a value is given")
        client(n + "_val", "(x: &%s) -> &Option<darling::ast::NestedMeta> { x.value() }" % T, {"arg1.value": OPT}, lambda w: Is("the stored value", lambda r: r == "arg1.value" or kind(r) == ("Some" if w["arg1.value"] else "None")), "value() is the given value")
        isstr = {"arg1.value": OPT, "arg1.value!": [0, 1], "arg1.value!@Lit.0": list(range(9))}

        def strlit(w):
            return w["arg1.value"] and w["arg1.value!"] == 1 and w["arg1.value!@Lit.0"] == 0
        client(n + "_str", "(x: &%s) -> bool { x.is_str() }" % T, isstr, lambda w: boolean(strlit(w)), "is_str() exactly for a string literal")
        client(n + "_tostr", "(x: &%s) -> darling::Result<String> { String::try_from(x) }" % T, isstr, lambda w: ok(Is("the literal's text", lambda r: isinstance(r, str) and "LitStr::value(arg1.value!@Lit.0@Str.0)" in r)) if strlit(w) else err, "only a string literal converts to String, with its own text")

    # ---- syntax values
    client("syn_kw0", "(p: %s) -> darling::Result<FXSynValueArg<syn::Ident, false>> { <FXSynValueArg<syn::Ident, false> as FromNestAttr<false>>::for_keyword(p) }" % P, {}, lambda w: err, "a syntax value that needs an argument rejects the bare keyword")
    client("syn_kw1", "(p: %s) -> darling::Result<FXSynValueArg<syn::Ident, true>> { <FXSynValueArg<syn::Ident, true> as FromNestAttr<false>>::for_keyword(p) }" % P, {}, lambda w: ok(Is("no value", lambda r: kind(r) == "FXSynValueArg" and ("None",) in r[1].values())), "a syntax value allowed as a keyword has no value then")
    for n, b in (("syn0", "false"), ("syn1", "true")):
        T = "FXSynValueArg<syn::Ident, %s>" % b
        client(n + "_meta", "(m: &syn::Meta) -> darling::Result<%s> { <%s as darling::FromMeta>::from_meta(m) }" % (T, T), {"arg1": [0, 1, 2], "syn::parse2(clone(arg1@List.0.tokens))": [0, 1]}, lambda w: err if w["arg1"] != 1 or w["syn::parse2(clone(arg1@List.0.tokens))"] else ok(Is("the parsed tokens", lambda r: kind(r) == "FXSynValueArg" and ("Some", "syn::parse2(clone(arg1@List.0.tokens))@Ok.0") in r[1].values())), "a syntax value is what its parenthesised tokens parse to")
    client("syn1_value", "(x: &FXSynValueArg<syn::Ident, true>) -> Option<&syn::Ident> { x.value() }", {"arg1.value": OPT}, lambda w: some(part("arg1.value")) if w["arg1.value"] else none, "value() is the parsed value")
    for n in (2, 3, 4, 7, 10):
        T = "FXSynTupleArg<(%s)>" % ", ".join(["syn::Path"] * n)

        def want(w, n=n):
            if w["len arg1"] != n:
                return err

            def f(r):
                if kind(r) == "Err":
                    return w["fail"]
                t = next((x for x in r[1][1].values() if kind(x) == "tup"), None) if kind(r) == "Ok" and kind(r[1]) == "FXSynTupleArg" else None
                return not w["fail"] and t is not None and t[0] == "tup" and len(t) == n + 1 and len(set(map(str, t))) == n + 1 and [str(x).count("next(") for x in t[1:]] == list(range(1, n + 1))
            return Is("the items, in order" if not w["fail"] else "an error", f)
        client("tup%d" % n, "(x: &[darling::ast::NestedMeta]) -> darling::Result<%s> { <%s as darling::FromMeta>::from_list(x) }" % (T, T), {"len arg1": list(range(0, n + 3)), "fail": FLAG}, want, "a %d-tuple takes exactly %d items, in order" % (n, n))
    for i, (lo, hi) in enumerate(((1, 2), (-1, -1), (0, 3), (2, -1), (-1, 1), (2, 2))):
        T = "FXPunctuated<syn::Path, syn::Token![,], %d, %d>" % (lo, hi)
        PT = "syn::punctuated::Punctuated::parse_terminated(arg1)"
        client("pun%d" % i, "(x: syn::parse::ParseStream<'_>) -> syn::Result<%s> { syn::parse::Parse::parse(x) }" % T, {PT: [0, 1], "len %s@Ok.0" % PT: list(range(0, 6))}, lambda w, lo=lo, hi=hi, PT=PT: err if w[PT] or (lo >= 0 and w["len %s@Ok.0" % PT] < lo) or (hi >= 0 and w["len %s@Ok.0" % PT] > hi) else ok(Is("the parsed items", lambda r: kind(r) == "FXPunctuated" and PT + "@Ok.0" in str(r[1].get("items", PT + "@Ok.0")))), "a list takes from MIN to MAX items (%d..%d)" % (lo, hi))

    # ---- containers
    client("nest_on", "(x: &FXHelper) -> bool { x.is_true() }", {"arg1.inner.off": FLAG}, lambda w: boolean(not w["arg1.inner.off"]), "a nested argument is on when its content is")
    client("nest_orig", "(x: &FXHelper) -> Option<&syn::Meta> { FXOrig::orig(x) }", {"arg1.orig": OPT}, lambda w: some(part("arg1.orig")) if w["arg1.orig"] else none, "orig() is the syntax it came from")
    client("nest_ref", "(x: &FXHelper) -> &FXBaseHelper { &**x }", {}, lambda w: Is("the content", lambda r: isinstance(r, str) and re.match(r"arg1\.\w+$", r) is not None), "a nested argument dereferences to its content")
    client("opt_on", "(x: &Option<FXBool>) -> bool { FXBoolHelper::is_true(x) }", {"arg1": OPT, "arg1!.inner.off": FLAG}, lambda w: boolean(w["arg1"] and not w["arg1!.inner.off"]), "an absent argument is not on")
    client("opt_opt", "(x: &Option<FXBool>) -> Option<bool> { x.is_true_opt() }", {"arg1": OPT, "arg1!.inner.off": FLAG}, lambda w: some(boolean(not w["arg1!.inner.off"])) if w["arg1"] else none, "is_true_opt() keeps absent apart from off")
    client("opt_not", "(x: &Option<FXBool>) -> bool { x.not_true() }", {"arg1": OPT, "arg1!.inner.off": FLAG}, lambda w: boolean(not (w["arg1"] and not w["arg1!.inner.off"])), "not_true() is the opposite of is_true()")
    for i, v in enumerate(("sync", "async", "plain")):
        client("mode_" + v, "(x: &FXSyncMode) -> bool { x.is_%s() }" % v, {"arg1": [0, 1, 2]}, lambda w, i=i: boolean(w["arg1"] == i), "is_%s() only for that mode" % v)
    # what a nested argument hands to its content, by the shape of the syntax
    for n, b in (("nn", "false"),):
        T = "FXNestingAttr<FX%s, %s>" % (n, b)
        out.append(Client(n + "_meta", NESTED % {"n": n, "b": b}, {"arg1": [0, 1, 2] if b == "false" else [0, 2], "user": [0]}, nested(n), "a nested argument hands a keyword to for_keyword, anything else to from_meta"))
    return list(out)


class Seq:
    """World fact: the list's items (m: meta, l: literal) and whether the content's from_list/set_literals succeed."""

    def __init__(self, items, fails):
        self.items, self.fails = items, fails

    def __repr__(self):
        return "(%s)%s" % (", ".join({"m": "meta", "l": "literal"}[x] for x in self.items), " %s fails" % self.fails if self.fails else "")

    def __call__(self, k):
        n = k.count("next(")
        if k.startswith("next("):
            if k.endswith(")"):
                return "v%d" % (n <= len(self.items))
            if k.endswith("!") and n <= len(self.items):
                return "v%d" % (self.items[n - 1] == "l")
            return None
        m = re.match(r"(Gt|Lt|Eq|Ne|Ge|Le)\((?:alloc::vec::Vec::)?len\((.*)\),(\d+)\)$", k) or re.match(r"()alloc::vec::Vec::is_empty\((.*)\)()$", k)
        if m and "Vec::new" in m.group(2):
            n = m.group(2).count("Vec::push(")
            return str(int(OPS[m.group(1)](n, int(m.group(3))) if m.group(1) else n == 0))
        f = re.match(r"(?:\w+::)*(parse_meta_list|from_list|set_literals)\(", k)
        if f and close(k, f.end() - 1) == len(k) - 1:
            return "v%d" % (self.fails == f.group(1))
        return None


def listed_items(s):
    """Which items of the list, in order, were pushed to the vector `s`; None when that is not how it was made."""
    if not re.search(r"Vec::(new|push|with_capacity)\b", s) or set(re.findall(r"(\w+)\(", s)) - {"push", "clone", "next", "into_iter", "parse_meta_list", "Meta", "Lit", "set_literals", "iter"}:
        return None
    return [len(x) // 5 for x in re.findall(r"(?:next\()+", s)]


def nested_lits(w):
    def f(r):
        q = w["seq"]
        lits = [i + 1 for i, x in enumerate(q.items) if x == "l"]
        metas = [i + 1 for i, x in enumerate(q.items) if x == "m"]
        if w["arg1"] != 1:
            fn = "for_keyword" if w["arg1"] == 0 else "from_meta"
            return kind(r) in ("Ok", "Err") and fn in str(r) and not re.search("set_literals|from_list", str(r))
        if q.fails == "parse_meta_list" or q.fails == "from_list" or (q.fails == "set_literals" and lits):
            return kind(r) == "Err"
        if kind(r) != "Ok" or kind(r[1]) != "FXNestingAttr":
            return False
        v = [x for x in r[1][1].values() if isinstance(x, str)]
        if len(v) != 1:
            return None
        i = re.search(r"\bfrom_list\(", v[0])
        if i is None:
            return None
        j = close(v[0], i.end() - 1)
        a, rest = listed_items(v[0][i.end():j]), v[0][:i.start()] + v[0][j + 1:]
        if a is None:
            return None
        b = listed_items(rest) if "set_literals(" in rest else []
        if b is None:
            return None
        return a == metas and b == lits and str(r[1][1]).count("'Some'") == 1
    return Is("from_list of the metas, then set_literals of the literals, if any", f)


def loops():
    """Clients whose code loops over a list of unknown length: lists of up to three items."""
    seqs = [Seq(x, f) for n in range(4) for x in itertools.product("ml", repeat=n) for f in ("", "parse_meta_list", "from_list", "set_literals")]
    return [Client("nm_meta", NESTED % {"n": "nm", "b": "true"}, {"arg1": [0, 1, 2], "seq": seqs, "user": [0]}, nested_lits, "a nested argument's list is split into literals and other items, each handed to its content in order")]


NESTED = """#[derive(Clone, Debug)]
pub struct FX%(n)s(u8);
impl darling::FromMeta for FX%(n)s {
    #[inline(never)]
    fn from_meta(m: &syn::Meta) -> darling::Result<Self> { loop {} }
}
impl FromNestAttr<%(b)s> for FX%(n)s {
    #[inline(never)]
    fn for_keyword(p: &syn::Path) -> darling::Result<Self> { loop {} }
    #[inline(never)]
    fn set_literals(self, l: &Vec<syn::Lit>) -> darling::Result<Self> { loop {} }
}
pub fn %(n)s_meta(m: &syn::Meta) -> darling::Result<FXNestingAttr<FX%(n)s, %(b)s>> { <FXNestingAttr<FX%(n)s, %(b)s> as darling::FromMeta>::from_meta(m) }"""


def nested(n):
    def want(w):
        fn = "for_keyword" if w["arg1"] == 0 else "from_meta"

        def f(r):
            return kind(r) in ("Ok", "Err") and fn in str(r) and not ({"for_keyword", "from_meta"} - {fn}).pop() in str(r)
        return Is("what %s returns" % fn, f)
    return want


def pubmode(pub, prv):
    def f(w):
        if w[prv] and not w[prv + "!.inner.off"]:
            return some(variant("Private"))
        if not w[pub]:
            return none
        v = w[pub + "!.inner"]
        names = ["Private", "Crate", "Super", "InMod", "All"]
        return some(Is(names[v], lambda r: kind(r) == names[v] and (v != 3 or strip_calls(r[1]).startswith(pub + "!"))))
    return f


def vis(n, T):
    client(n + "_vis", "(x: &%s) -> Option<FXPubMode> { x.public_mode() }" % T, {"arg1.public": OPT, "arg1.public!.inner": [0, 1, 2, 3, 4], "arg1.private": OPT, "arg1.private!.inner.off": FLAG}, pubmode("arg1.public", "arg1.private"), "`private` wins, then the `public` mode")


# ---------------------------------------------------------------- judging

def special(k, w):
    """Conditions about calls whose outcome is one of the world's facts."""
    k = canon(k)
    if "parse" in w and re.match(r"syn::lit::Lit(Int|Float)::base10_parse\((index\(arg2,0\)|next\(core::slice::iter::Iter::new\(arg2\)\)!)@(Int|Float)\.0\)$", k):
        return "v%d" % w["parse"]
    if "word" in w:
        if re.match(r'syn::path::Path::is_ident\(index\(arg1,0\)@Meta\.0@Path\.0,"off"\)$', k):
            return "1" if w["word"] == "off" else "0"
        m = re.match(r"(Eq|Ne|Gt|Lt|Ge|Le)\(syn::punctuated::Punctuated::len\(index\(arg1,0\)@Meta\.0@Path\.0\.segments\),(\d+)\)$", k)
        if m:
            return str(int(OPS[m.group(1)](2 if w["word"] == "off::x" else 1, int(m.group(2)))))
    if "fail" in w and k.startswith("syn::parse2("):
        # which item fails does not matter
        return ("v0", "v1") if w["fail"] else "v0"
    return says(k, w)


def judge(clients, fns):
    """-> (violations [(client, text)], undecided [...], obligations)."""
    by = {f["path"].split("::")[-1]: f for f in fns}
    bad, und, n = [], [], 0
    for c in clients:
        f = by.get(c.name)
        if f is None:
            und.append((c, "not analysed"))
            continue
        if not f["complete"]:
            und.append((c, "more paths than explored"))
        for w in c.worlds():
            p = c.want(w)
            if p is None:
                continue
            n += 1
            hit = False
            for o in f["outcomes"]:
                sure, dead, splits = True, False, False
                for k, v in o["cond"].items():
                    s = special(k, w)
                    if s is None:
                        sure = False
                    elif isinstance(s, tuple):
                        splits = splits or v == s[-1]
                        dead = dead or str(v) not in s
                    elif str(v) != s:
                        dead = True
                if dead:
                    continue
                if w.get("fail") and not splits and o["exit"] == "return" and kind(plain(o["ret"])) == "Ok":
                    continue  # no item failed on this path
                hit = True
                facts = ", ".join("%s=%s" % (k, v) for k, v in w.items())
                if o["exit"] == "bad":
                    und.append((c, "%s: %s" % (facts, o["ret"])))
                elif o["exit"] != "return":
                    (bad if sure else und).append((c, "%s: %s instead of %s" % (facts, o["exit"], p.text)))
                else:
                    r = plain(o["ret"])
                    try:
                        good = p(r)
                    except Exception:
                        good = None
                    if good is False or good is None:
                        # an answer that is itself an unresolved expression is not judged
                        opaque = good is None or unresolved(r, p)
                        (und if opaque or not sure else bad).append((c, "%s: answers %s instead of %s" % (facts, str(r)[:160], p.text)))
            if not hit:
                und.append((c, "no path for %s" % w))
    return bad, und, n


def unresolved(r, p):
    return isinstance(r, str) and p.text in ("true", "false", "None", "an error") and r != "arg1"


HEAD = "use crate::*;\nuse crate::attributes::FXAttributes;\n"


def run(features=("sync", "async", "serde"), tag="aux"):
    cl, fns, gone = run_set(mk(), features, tag, None)
    c2, f2, g2 = run_set(loops(), features, tag + "_loops", "3")
    return cl + c2, fns + [f for f in f2 if f["path"].split("::")[-1] in {c.name for c in c2}], gone + g2


def run_set(cl, features, tag, unroll):
    flags = build.aux_flags(list(features))  # refreshes the mirror of the current tree
    live, gone = cl, []
    for _ in range(4):
        lines, at = [], {}
        for c in live:
            for ln in c.src.split("\n"):
                lines.append(ln)
                at[len(lines)] = c
        lib = build.write_crate(tag, "\n".join(lines) + "\n" + HEAD, list(features), of="fieldx_aux")
        j, errs = build.run_driver(tag, lib, flags, ["serde"], unroll=unroll)
        if j is not None:
            return cl, j["fns"], gone
        # a client of something that is no longer there says nothing about behaviour: leave it out
        hit = {id(at[sp["line_start"]]) for e in errs for sp in e.get("spans", []) if sp["file_name"].endswith("specs.rs") and sp["line_start"] in at}
        if not hit:
            break
        gone += [c for c in live if id(c) in hit]
        live = [c for c in live if id(c) not in hit]
    raise build.Broken("the clients of fieldx_aux do not compile:\n" + "\n".join(e.get("rendered", "") for e in errs[:4])[-3000:])


def findings(oracle, features=("sync", "async", "serde"), tag="aux"):
    cl, fns, gone = run(features, tag)
    fs = []
    bad, und, n = judge(cl, fns)
    seen = set()
    for rule, l in (("argument-value", bad), ("undecided", und)):
        for c, x in l:
            if (rule, c.name) not in seen:
                seen.add((rule, c.name))
                fs.append(oracle.Finding({"C38"}, rule, c.name, "%s, but `%s`: %s" % (c.what, c.src.split("\n")[-1].strip(), x)))
    return fs, {"obligations": n, "clients": len(cl), "functions": len(fns), "left_out": len(gone), "paths": sum(len(f["outcomes"]) for f in fns), "by_prop": {"C38": n}}


if __name__ == "__main__":
    cl, fns, errs = run()
    b, u, n = judge(cl, fns)
    print(len(cl), "clients", n, "obligations", len(b), "bad", len(u), "undecided", len(errs), "left out")
    seen = {}
    for t, l in (("BAD", b), ("UND", u)):
        for c, x in l:
            if seen.setdefault((t, c.name), 0) < 1:
                print(t, c.name, x[:260])
            seen[(t, c.name)] += 1
