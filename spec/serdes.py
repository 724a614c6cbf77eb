"""Rules on serde support: the shadow struct and the conversions to and from it."""
import json, re
from oracle import Finding, Pat, match, ptext, NONE, some, sym
from norm import Names, show
from items import nt, vis_text, attr_marks, want_marks
from ctor import calls_norm, init, default_tree, default_of, flat, from_user, o_cond
from model import vis_of, Arg


def direction(arg, n, other):
    """Does this `serde` argument ask for direction n?  None: it does not say."""
    if arg is None:
        return None
    if arg.sub(n):
        return arg.has(n)
    if arg.sub(other):
        return not arg.has(other)
    return None


class FS:
    """A field's part in serde."""

    def __init__(self, ss, fm):
        self.fm, self.name, self.ty = fm, fm.name, fm.ty
        a = fm.f.args.get("serde")
        self.arg = a
        if a is None:
            on = True
        elif a.off:
            on = False
        else:
            s, d = (a.has(x) if a.sub(x) else None for x in ("serialize", "deserialize"))
            on = True if s is None and d is None else (s if s is not None else True) or (d if d is not None else True)
        self.on = on and not fm.skip
        self.ser = direction(a, "serialize", "deserialize")
        self.de = direction(a, "deserialize", "serialize")
        self.ser = True if self.ser is None else self.ser
        self.de = True if self.de is None else self.de
        self.opt = fm.lazy or fm.optional
        self.shadow_ty = "Option<%s>" % fm.ty if self.opt else fm.ty
        # what the serde attributes of the shadow field must say
        self.attrs = set()
        if not self.ser:
            self.attrs.add("skip_serializing")
        elif not self.de:
            self.attrs.add("skip_deserializing")
        self.default = a.sub("default") if a is not None and not a.off else None
        if self.default is not None and self.default.off:
            self.default = None
        self.rename = (a.lit if a is not None else None) or (fm.base if fm.base != fm.name else None)


class SS:
    def __init__(self, sm):
        a = sm.s.args.get("serde")
        self.sm, self.arg = sm, a
        self.on = a is not None and not a.off and not (a.sub("serialize") and a.sub("deserialize") and not a.has("serialize") and not a.has("deserialize"))
        if not self.on:
            return
        self.ser = direction(a, "serialize", "deserialize")
        self.de = direction(a, "deserialize", "serialize")
        self.ser = True if self.ser is None else self.ser
        self.de = True if self.de is None else self.de
        self.name = a.lit or (a.sub("shadow_name").lit if a.sub("shadow_name") else None) or "__%sShadow" % sm.s.name
        self.vis = vis_of(a) or "priv"
        at = a.sub("attributes")
        self.attrs = [x.text for x in at.subs] if at is not None else [x.text for x in sm.s.args["attributes"].subs] if "attributes" in sm.s.args else []
        self.default = a.sub("default")
        if self.default is not None and self.default.off:
            self.default = None
        self.fields = [FS(self, fm) for fm in sm.fields]
        self.mine = [f for f in self.fields if f.on]


def serde_args(attrs):
    """{argument: literal or True} over every #[serde(..)] attribute."""
    out = {}
    for a in attrs or []:
        if not re.match(r'(?:DeriveHelper|Unparsed)\(.*?segments: \["serde"\]', a):
            continue
        toks = re.findall(r'Ident\("((?:[^"\\]|\\.)*)"|kind: (Eq|Comma)\b|Lit \{ kind: \w+, symbol: "((?:[^"\\]|\\.)*)"', a)
        key, eq = None, False
        for i, e, l in toks:
            if e == "Comma":
                key, eq = None, False
            elif e == "Eq":
                eq = True
            elif i and not eq:
                key = i
                out[key] = True
            elif eq and key:
                out[key] = (l or i).replace('\\"', '"')
    return out


def user_expr(arg):
    """Tree of a default expression: `f()` of a known function, or None when it is something else."""
    if arg is None or not arg.subs:
        return None
    b = arg.body.strip()
    m = re.match(r'^"?(?:Self::|Foo::)?(\w+)(?:\(\))?"?$', b)
    return m.group(1) if m else None


def judge(res, sm):
    out, n = [], 0
    ss = SS(sm)
    s = sm.s
    p = "specs::%s::" % s.mod
    gen = r"(?:<[^<>]*(?:<[^<>]*>)?[^<>]*>)?"

    def add(props, rule, where, text):
        out.append(Finding(props, rule, where, text))
    serde_impl = lambda i, tr: (i["trait"] or "").endswith(" as serde_core::%s>" % tr) or re.search(r"serde\w*::(?:\w+::)?%s(?:<'\w+>)?>?$" % tr.split("::")[-1].split("<")[0], i["trait"] or "")
    def impls_of(t, tr):
        return [i for i in res.impls if re.match(r"%s%s$" % (re.escape(p + t), gen), i["self"]) and serde_impl(i, tr)]
    if not ss.on:
        n += 1
        sh = [x for x in res.structs if x["path"].startswith(p) and x["name"].endswith("Shadow")]
        if sh or impls_of(s.name, "Serialize") or impls_of(s.name, "Deserialize"):
            add({"C26"}, "not-asked-for", s.name, "serde support is generated though it was not asked for")
        return out, n
    sh = next((x for x in res.structs if x["path"] == p + ss.name), None)
    n += 1
    if sh is None:
        add({"C26", "C25"}, "no-shadow", ss.name, "no shadow struct of that name; there are %s" % [x["path"] for x in res.structs if x["path"].startswith(p) and "::_::" not in x["path"]])
        return out, n
    n += 1
    if sh["vis"] != vis_text(ss.vis, s.mod):
        add({"C26", "C17"}, "visibility", ss.name, "shadow struct is visible in %s, should be %s" % (sh["vis"], vis_text(ss.vis, s.mod)))
    a, b = attr_marks(sh["attrs"]), want_marks(ss.attrs)
    n += 1
    if a != b:
        add({"C26", "C28"}, "attributes", ss.name, "shadow struct carries %s, should carry %s" % (sorted(a), sorted(b)))
    # directions
    for t in (ss.name, s.name):
        for tr, want in (("Serialize", ss.ser), ("Deserialize", ss.de)):
            n += 1
            if bool(impls_of(t, tr)) != want:
                add({"C26"}, "direction", t, "%s is %simplemented" % (tr, "not " if want else ""))
    st = next((x for x in res.structs if x["path"] == p + s.name), None)
    sa = serde_args(st["attrs"]) if st else {}
    for k, want in (("from", ss.de), ("into", ss.ser)):
        n += 1
        v = sa.get(k)
        if (re.match(r"%s\s*(?:<.*>)?$" % re.escape(ss.name), v) is not None if isinstance(v, str) else False) != want:
            add({"C26", "C25"}, "conversion-attribute", s.name, "serde goes `%s` %s" % (k, v))
    # struct-level default
    da = serde_args(sh["attrs"])
    n += 1
    if ss.default is None:
        if "default" in da:
            add({"C26"}, "default", ss.name, "carries a serde default nobody asked for")
    elif not ss.default.subs:
        if da.get("default") is not True:
            add({"C26"}, "default", ss.name, "should carry serde(default), has %s" % da.get("default"))
    else:
        d = da.get("default")
        if not isinstance(d, str):
            add({"C26"}, "default", ss.name, "should carry serde(default = ..), has %s" % d)
        else:
            want = user_expr(ss.default)
            n += default_fn(res, p, s.name, ss.name, d, want, None, add)
    if "deny_unknown_fields" in " ".join(ss.attrs):
        n += 1
        if "deny_unknown_fields" not in da:
            add({"C26", "C28"}, "attributes", ss.name, "serde attribute of `attributes` is not on the shadow struct")
    # fields
    # a zero-sized marker that serde skips is no part of the data
    marker = lambda f: f["name"] not in [x.name for x in s.fields] and re.match(r"(std::marker::|core::marker::)?PhantomData<", f["ty"]) and "skip" in serde_args(f["attrs"])
    got = [f["name"] for f in sh["fields"] if not marker(f)]
    n += 1
    if got != [f.name for f in ss.mine]:
        q = {"C26"} | ({"C35"} if any(f.fm.skip and f.name in got for f in ss.fields) else set())
        add(q, "shadow-fields", ss.name, "has fields %s, should have %s" % (got, [f.name for f in ss.mine]))
    sf = {f["name"]: f for f in sh["fields"]}
    for f in ss.mine:
        g = sf.get(f.name)
        if g is None:
            continue
        n += 3
        if nt(g["ty"]) != nt(f.shadow_ty):
            add({"C26"} | ({"C29"} if s.generics else set()), "shadow-field-type", f.name, "shadow field has type %s, should be %s" % (nt(g["ty"]), f.shadow_ty))
        fa = serde_args(g["attrs"])
        for k in ("skip", "skip_serializing", "skip_deserializing"):
            if (k in fa) != (k in f.attrs):
                add({"C26"}, "skip", f.name, "shadow field %s %s" % ("carries" if k in fa else "lacks", k))
        r = fa.get("rename")
        if r != f.rename:
            add({"C26"}, "rename", f.name, "is serialized as %s, should be %s" % (r or f.name, f.rename or f.name))
        if f.default is None:
            if "default" in fa and not any("default" in x for x in f.fm.f.attrs):
                add({"C26"}, "default", f.name, "carries a serde default nobody asked for")
        elif not f.default.subs:
            if fa.get("default") is not True:
                add({"C26"}, "default", f.name, "should carry serde(default), has %s" % fa.get("default"))
        elif not isinstance(fa.get("default"), str):
            add({"C26"}, "default", f.name, "should carry serde(default = ..), has %s" % fa.get("default"))
        else:
            n += default_fn(res, p, s.name, f.shadow_ty, fa["default"], user_expr(f.default), f, add)
        # user attributes
        ua = f.arg.sub("attributes") if f.arg is not None else None
        helper = f.arg if f.arg is not None else ss.arg
        fw = helper.sub("forward_attrs")
        want = set(x.text for x in ua.subs) if ua is not None else set()
        for x in f.fm.f.attrs:
            m = re.match(r"#\[(\w+)", x)
            if m.group(1) == "serde" or (fw is not None and m.group(1) in [y.text for y in fw.subs]):
                want.add(x[2:-1])
        have = " ".join(g["attrs"] or [])
        for w in want:
            m = re.match(r"serde\((\w+)", w)
            n += 1
            if m and m.group(1) not in fa or not m and not attr_here(w, g["attrs"]):
                add({"C26", "C28"}, "field-attribute", f.name, "attribute %s is not on the shadow field" % w)
        if fw is not None or not f.fm.f.attrs:
            for k in ("must_use", "cold", "deprecated", "non_exhaustive"):
                n += 1
                if attr_here(k, g["attrs"]) and not any(w.startswith(k) for w in want):
                    add({"C26", "C28"}, "field-attribute", f.name, "attribute %s is on the shadow field" % k)
        extra = set(fa) - {"skip", "skip_serializing", "skip_deserializing", "rename", "default"} - {m.group(1) for w in want for m in [re.match(r"serde\((\w+)", w)] if m}
        if extra:
            add({"C26", "C28"}, "field-attribute", f.name, "shadow field carries serde arguments %s nobody asked for" % sorted(extra))
    # conversions
    n += from_shadow(res, sm, ss, add, p, gen) if ss.de else absent(res, p, s.name, ss.name, gen, add)
    n += into_shadow(res, sm, ss, add, p, gen) if ss.ser else absent(res, p, ss.name, s.name, gen, add)
    n += shadow_default(res, sm, ss, add, p, gen)
    return out, n


def attr_here(w, attrs):
    w = re.match(r"\w+", w).group(0)
    return w in attr_marks(attrs or []) or any('segments: ["%s"]' % w in a for a in attrs or [])


def find(res, pat):
    return next((v for k, v in res.outcomes.items() if re.match(pat, k)), None)


def absent(res, p, dst, src, gen, add):
    if find(res, r"<%s%s as core::convert::From<%s%s>>::from$" % (re.escape(p + dst), gen, re.escape(p + src), gen)):
        add({"C26"}, "direction", dst, "conversion from %s exists though the direction is off" % src)
    return 1


def default_fn(res, p, sname, ty, d, want, f, add):
    """The function serde is told to call must give the declared default (as the shadow's type)."""
    if want is None:
        return 0
    name = d.split("::")[-1]
    where = f.name if f else ty
    if name == want:
        return 1
    o = find(res, r"%s(?:::)?(?:<.*>)?::%s$" % (re.escape(p + sname), re.escape(name)))
    if o is None:
        add({"C26"}, "default", where, "serde default is %s, should be %s" % (d, want))
        return 1
    for x in o["outcomes"]:
        if x["exit"] == "bad":
            add({"C26"}, "undecided", where, str(x["ret"]))
        if x["exit"] != "return":
            continue
        v = calls_norm(x["ret"])
        if f is not None and f.opt:
            ok = match(some(sym(want + "()")), v)
        else:
            ok = match(sym(want + "()"), v) or (f is None and (v[0] == "struct" and v[1] == ty and want + "()" in show(v) or re.match(r"^(?:from|into)\(%s(?:\(\)|\{\})\)$" % re.escape(want), show(v))))
        if not ok:
            add({"C26"}, "default", where, "serde default gives %s, should be %s()" % (show(v), want))
    return 2


def from_shadow(res, sm, ss, add, p, gen):
    n = 0
    s = sm.s
    where = "%s::from(%s)" % (s.name, ss.name)
    o = find(res, r"<%s%s as core::convert::From<%s%s>>::from$" % (re.escape(p + s.name), gen, re.escape(p + ss.name), gen))
    if o is None:
        add({"C25"}, "no-conversion", where, "there is no conversion from the shadow")
        return 1
    if not o["complete"]:
        add({"C25"}, "undecided", where, "exploration incomplete")
        return 1
    good = 0
    for x in o["outcomes"]:
        n += 1
        if x["exit"] == "bad":
            add({"C25"}, "undecided", where, "path not understood: %s" % x["ret"])
            continue
        if x["exit"] == "panic":
            if not from_user(x, sm):
                add({"C25"}, "panic", where, "can panic: %s" % "; ".join(str(e.get("why", "")) for e in x["events"] if e["e"] == "panic"))
            continue
        if x["exit"] != "return":
            continue
        good += 1
        t = spell(calls_norm(x["ret"]), "arg1", s.name, [f.name for f in ss.fields])
        if t[0] != "struct" or t[1] != s.name:
            add({"C25"}, "not-the-object", where, "gives %s" % show(t))
            continue
        if x["held"]:
            add({"C07"}, "held-at-exit", where, "ends holding %s" % x["held"])
        for f in ss.fields:
            fm, g = f.fm, t[2].get(f.name)
            n += 1
            P = "arg1.%s" % f.name
            dflt = default_tree(fm)
            if not (f.on and f.de):
                es = [init(fm, dflt)]
                q = {"C25"} | ({"C35"} if fm.skip else set())
            else:
                q = {"C25"}
                if not f.opt:
                    es = [init(fm, sym(P))]
                else:
                    c = o_cond(x, P)
                    es = []
                    if c in (None, "v1"):
                        es.append(init(fm, sym(P + "@Some.0")))
                    if c in (None, "v0"):
                        # a locked field stays unset, one without a lock takes its default
                        es += ([init(fm, None)] if fm.mode != "plain" or dflt is None else []) + ([init(fm, dflt)] if dflt is not None else [])
                    if c is None and not (fm.mode == "plain" and dflt is not None):
                        # stored as it came
                        es = [whole(fm, P)]
            if not any(match(e, g) for e in es):
                if fm.lazy and fm.mode != "plain" and g is not None and re.search(r'"agrees": false', flat(g)):
                    q.add("C03")
                add(q, "field:%s" % f.name, where, "field `%s` becomes %s, should be %s" % (f.name, show(g) if g is not None else "nothing", " or ".join(ptext(e) for e in es)))
    if not good:
        add({"C25"}, "never-returns", where, "no path returns an object")
    return n


def whole(fm, P):
    """An optional's storage holding the shadow's option as it is."""
    class W:
        pass
    w = W()
    w.__dict__.update(fm.__dict__)
    if fm.lazy:
        return init(fm, sym(P + "@Some.0"))
    from ctor import lock_content
    if fm.storage == "bare":
        return sym(P)
    if fm.storage == "inner":
        return lock_content(sym(P))
    return Pat("Lock[%s]" % P, lambda t: isinstance(t, list) and t[0] == "struct" and len(t[2]) == 1 and lock_content(sym(P)).f(list(t[2].values())[0]))


def into_shadow(res, sm, ss, add, p, gen):
    n = 0
    s = sm.s
    where = "%s::from(%s)" % (ss.name, s.name)
    o = find(res, r"<%s%s as core::convert::From<%s%s>>::from$" % (re.escape(p + ss.name), gen, re.escape(p + s.name), gen))
    if o is None:
        add({"C25"}, "no-conversion", where, "there is no conversion into the shadow")
        return 1
    if not o["complete"]:
        add({"C25"}, "undecided", where, "exploration incomplete")
        return 1
    names = {fm.name: Names(fm, self_name="arg1") for fm in sm.fields if not fm.skip}
    good = 0
    for x in o["outcomes"]:
        n += 1
        calls = {}
        for e in x["events"]:
            if e["e"] == "drop_unpolled":
                if re.search(r"\blazy_init\b", str(e.get("what"))) and any(f.fm.lazy and f.fm.mode == "async" and f.ser for f in ss.mine):
                    unawaited(add, None)
                else:
                    add({"C33", "C25"}, "dropped-future", where, "the future %s is dropped without being awaited" % e.get("what"))
            if e["e"] == "recursive":
                add({"C07"}, "recursive-lock", where, "acquires %s while holding it" % e.get("lock"))
            if e["e"] != "call":
                continue
            for k, nm in names.items():
                if nm.fm.lazy and nm.re_callee.match(str(e.get("f", ""))):
                    calls[k] = calls.get(k, 0) + 1
        for k, c in calls.items():
            f = next(y for y in ss.fields if y.name == k)
            if not (f.on and f.ser):
                add({"C25"}, "foreign-builder", where, "runs the lazy builder of `%s`, which is not serialized" % k)
            if c > 1:
                add({"C25"}, "builder-twice", where, "runs the lazy builder of `%s` %d times" % (k, c))
        if x["exit"] == "bad":
            add({"C25"}, "undecided", where, "path not understood: %s" % x["ret"])
            continue
        if x["exit"] == "deadlock":
            add({"C07", "C25"}, "deadlock", where, "a path blocks for ever")
        if x["exit"] == "panic":
            ws = [e for e in x["events"] if e["e"] == "panic"]
            usr = from_user(x, sm) or any(nm.fm.lazy and any(nm.re_callee.match(str(e.get("why", ""))) for e in ws) for nm in names.values())
            unbuilt = any(v == "v0" and nm.fm.lazy and c.startswith(nm.root + ".") and nm.lock and not c.startswith(nm.lock + "@") for c, v in x["cond"].items() for nm in names.values())
            if not usr and not unbuilt:
                add({"C25"}, "panic", where, "can panic: %s" % "; ".join(str(e.get("why", "")) for e in ws))
            continue
        if x["exit"] != "return":
            continue
        good += 1
        t = spell(x["ret"], "arg1", ss.name, [f.name for f in ss.mine])
        if t[0] != "struct" or t[1] != ss.name:
            add({"C25"}, "not-the-object", where, "gives %s" % show(t))
            continue
        if x["held"]:
            add({"C07"}, "held-at-exit", where, "ends holding %s" % x["held"])
        for f in ss.mine:
            if not f.ser:
                continue
            n += 1
            nm, g = names[f.name], t[2].get(f.name)
            conds = [v for c, v in x["cond"].items() if nm.re_content.fullmatch(c)]
            cond = conds[-1] if conds else None
            ok, want = moved(f, nm, cond, calls.get(f.name, 0), x, g)
            if not ok and f.fm.lazy and f.fm.mode == "async" and cond is None and not calls.get(f.name) and g == sym("%s@0" % nm.lock):
                unawaited(add, f)
            elif not ok:
                add({"C25"} | ({"C33"} if f.fm.mode == "async" and f.fm.lazy else set()), "field:%s" % f.name, where, "with the field %s the shadow's `%s` becomes %s, should be %s" % ({"v0": "unset", "v1": "set"}.get(cond, "as it is"), f.name, show(g) if g is not None else "nothing", want))
    if not good:
        add({"C25"}, "never-returns", where, "no path returns a shadow")
    return n


def unawaited(add, f):
    add({"C25", "C33"}, "async-lazy-not-awaited", "serialization of an async lazy field", "the future which builds the value is dropped without being awaited%s" % ("" if f is None else ": `%s` is serialized as it is, unset when it was never read" % f.name))


def is_built(nm, v, fallible):
    """`v` is exactly the outcome of calling the field's lazy builder."""
    if fallible:
        if not v.endswith("@Ok.0"):
            return False
        v = v[:-len("@Ok.0")]
    if v.startswith("await(") and v.endswith(")"):
        v = v[len("await("):-1]
    m = re.match(r"^(.*?)#\d+\(", v)
    if not m or not nm.re_callee.match(m.group(1)):
        return False
    d = 0
    for i, c in enumerate(v[m.end() - 1:]):
        d += (c == "(") - (c == ")")
        if d == 0:
            return m.end() - 1 + i == len(v) - 1
    return False


def spell(t, root, name, fields):
    """A struct made of the same-named fields of `root` is summarised as `root` itself: spell it out."""
    if t == ["sym", root]:
        return ["struct", name, {f: ["sym", root + "." + f] for f in fields}]
    return t


def moved(f, nm, cond, ncalls, x, g):
    """Is tree g the current content of the field?"""
    s = show(g) if g is not None else ""
    if f.fm.lazy:
        if cond == "v1":
            return bool(g and g[:2] == ["enum", "Some"] and g[2][0][0] == "sym" and nm.re_content.fullmatch(re.sub(r"@Some\.0$", "", g[2][0][1])) and ncalls == 0), "the stored value, without running the builder"
        if cond == "v0" or cond is None:
            if g and g[:2] == ["enum", "Some"] and g[2][0][0] == "sym" and ncalls == 1 and is_built(nm, g[2][0][1], f.fm.fallible):
                return True, ""
            if f.fm.fallible and g == NONE and ncalls == 1:
                return True, ""
            return False, "the value its builder gives"
    if f.opt:
        if g == NONE:
            return cond == "v0", "its content"
        if g and g[:2] == ["enum", "Some"]:
            return cond in ("v1",) and g[2][0][0] == "sym" and bool(nm.re_content.fullmatch(re.sub(r"@Some\.0$", "", g[2][0][1]))), "its content"
    return bool(g and g[0] == "sym" and nm.re_content.fullmatch(g[1])), "its content"


def shadow_default(res, sm, ss, add, p, gen):
    """Default of the shadow: every field from its declared default."""
    o = find(res, r"<%s%s as core::default::Default>::default$" % (re.escape(p + ss.name), gen))
    if o is None:
        if ss.default is not None and not ss.default.subs and ss.de:
            add({"C26"}, "no-default", ss.name, "the shadow has no Default to take missing fields from")
        return 1
    n = 0
    for x in o["outcomes"]:
        if x["exit"] != "return":
            continue
        t = calls_norm(x["ret"])
        if t[0] != "struct":
            add({"C26"}, "undecided", ss.name, show(t))
            continue
        for f in ss.mine:
            n += 1
            d = default_tree(f.fm)
            e = (some(d) if d is not None else NONE) if f.opt else (d if d is not None else default_of(f.fm))
            if not match(e, t[2].get(f.name)):
                add({"C26", "C25"}, "shadow-default:%s" % f.name, ss.name, "missing field `%s` defaults to %s, should be %s" % (f.name, show(t[2].get(f.name)), ptext(e)))
    return n
