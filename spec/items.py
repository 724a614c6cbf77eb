"""Rules on generated items: which exist, their names, signatures, visibility, attributes, storage types and markers."""
import re
from oracle import Finding
from model import HELPERS, PREFIX, vis_of

MARK = {"must_use": "MustUse", "cold": "Cold", "deprecated": "Deprecat", "track_caller": "TrackCaller", "automatically_derived": "AutomaticallyDerived", "non_exhaustive": "NonExhaustive"}


def nt(s):
    """A type's text without paths and lifetimes."""
    s = re.sub(r"&'\w+ ", "&", s)
    s = re.sub(r"'\w+(?:, )?", "", s).replace(", >", ">").replace("<>", "")
    s = re.sub(r"(?:\b\w+::)+(?=\w)", "", s)
    s = s.replace("RawRwLock, ", "").replace("r#", "")
    s = re.sub(r"\((dyn [^()]*(?:\([^()]*\))?[^()]*?)(?: \+ )?\)", r"\1", s)
    return s


def vis_text(v, mod):
    if v == "pub":
        return "pub"
    if v in ("priv", "", None):
        return "specs::" + mod
    m = re.match(r"pub\((?:in )?(.*)\)$", v)
    p = m.group(1).strip()
    if p == "crate":
        return "crate"
    if p == "super":
        return "specs"
    if p == "self":
        return "specs::" + mod
    return p.replace("crate::", "")


def attr_marks(attrs):
    t = " ".join(attrs)
    return {k for k, v in MARK.items() if v in t}


def want_marks(texts):
    return {re.match(r"\w+", t).group(0) for t in texts} & set(MARK)


def lost_texts(attrs, texts):
    """Strings given in attributes that the generated item's attributes do not mention."""
    have = " ".join(attrs)
    return [q for t in texts if re.match(r"\w+", t).group(0) in MARK for q in re.findall(r'"([^"]*why)"', t) if q not in have]


class Items:
    """Index of one specimen's facts."""

    def __init__(self, res, sm):
        self.res, self.sm = res, sm
        s = sm.s
        self.mod = s.mod
        self.user = set()
        for u in list(s.user) + [s.extra or ""]:
            self.user |= set(re.findall(r"\bfn (\w+)", u))
        for f in sm.fields:
            if f.lazy_fn:
                self.user.add(f.lazy_fn)
        p = "specs::%s::" % s.mod
        self.struct = next((x for x in res.structs if x["path"] == p + s.name), None)
        self.fns = {}
        for f in res.fns:
            if f["self"] and f["trait"] is None:
                t = re.match(r"(?:specs::\w+::)?(\w+)", nt(f["self"])).group(1)
                self.fns.setdefault(t, {}).setdefault(f["name"], f)
        self.path = p

    def methods(self, t=None):
        return {k: v for k, v in self.fns.get(t or self.sm.s.name, {}).items() if t or k not in self.user}


RG, WG = r"(?:Mapped)?(?:RwLock)?(?:Mapped)?ReadGuard<%s>", r"(?:RwLock|Mapped)*(?:Mapped)?(?:Write|Mut)Guard<%s>"


def sig(fm, kind):
    """(async?, receiver, argument or None, regex of the return type)"""
    T = re.escape(nt(fm.ty))
    O = r"Option<%s>" % T if fm.optional else T
    prot, inner = fm.protected, fm.storage == "inner"
    asy = fm.mode == "async" and prot and not (kind == "predicate" and fm.lazy)
    shared = prot or inner
    rg = {"sync": r"(?:Mapped)?RwLock(?:Mapped)?ReadGuard<%s>", "async": r"RwLock(?:Mapped)?ReadGuard<%s>", "plain": r"Ref<%s>"}[fm.mode if prot else "plain"]
    wg = {"sync": r"(?:Mapped)?RwLock(?:Mapped)?WriteGuard<%s>", "async": r"RwLock(?:Mapped)?(?:Write|MappedWrite)Guard<%s>", "plain": r"RefMut<%s>"}[fm.mode if prot else "plain"]
    wrap = (lambda x: r"Result<%s, %s>" % (x, re.escape(nt(fm.fallible)))) if fm.fallible else (lambda x: x)
    val = T if fm.lazy else O
    if kind in ("get", "reader"):
        gm = fm.get_mode if kind == "get" else None
        if gm in ("clone", "copy"):
            return asy, "&", None, wrap(val)
        if gm == "as_ref":
            return asy, "&", None, r"Option<&%s>" % T if not shared else r"(?:%s|%s|Option<%s>)" % (rg % O, rg % T, rg % T)
        return asy, "&", None, wrap(rg % val if shared else "&" + val)
    if kind == "get_mut":
        return asy, "&" if shared else "&mut ", None, wrap(wg % val if shared else "&mut " + val)
    if kind == "writer":
        return asy, "&", None, (r"FXWrLockGuard(?:Sync|Async)<.*>" if fm.lazy else wg % O)
    if kind == "set":
        return asy, "&" if shared else "&mut ", T, r"Option<%s>" % T if fm.lazy else O
    if kind == "clearer":
        return asy, "&" if shared else "&mut ", None, r"Option<%s>" % T
    if kind == "predicate":
        return asy, "&", None, "bool"


def judge_items(res, sm):
    """Findings about the declarations; returns (findings, obligations)."""
    out, n = [], 0
    s = sm.s
    it = Items(res, sm)

    def add(props, rule, where, text):
        out.append(Finding(props, rule, where, text))

    got = it.methods()
    want = {}
    for fm in sm.fields:
        for k, h in fm.helpers.items():
            want[h.name] = (fm, k, h)
    special = {}
    if not sm.no_new:
        special["new"] = "pub"
    if sm.has_builder:
        special["builder"] = s.vis or "priv"
    for nme, v in sm.rc_helpers.items():
        special[nme] = v
    # -- C15/C16: exactly these methods
    for nme, (fm, k, h) in want.items():
        n += 1
        if nme not in got:
            extra = [g for g in got if g not in want and g not in special and not g.startswith("__")]
            add({"C16" if extra else "C15"} | ({"C12"} if k in ("clearer", "predicate") else set()), "no-helper", nme, "the %s helper of field `%s` should be called `%s`; the struct has %s" % (k, fm.name, nme, sorted(g for g in got if not g.startswith("__"))))
    for nme in got:
        n += 1
        if nme not in want and nme not in special and not nme.startswith("__"):
            missing = [w for w in want if w not in got]
            add({"C16"} if missing else {"C15"} | ({"C35"} if any(f.skip and f.name in nme for f in sm.fields) else set()), "extra-helper", nme, "method `%s` was not asked for" % nme)
    for nme, v in special.items():
        n += 1
        if nme not in got:
            add({"C19"} if nme == "new" else ({"C23"} if nme == "builder" else {"C24", "C16"}), "no-method", nme, "`%s` is missing" % nme)
            continue
        w = vis_text(v, s.mod)
        if got[nme]["vis"] != w:
            add({"C17"}, "visibility", nme, "`%s` is visible in %s, should be %s" % (nme, got[nme]["vis"], w))
    if "new" not in special and "new" in got:
        add({"C19", "C15"}, "extra-new", "new", "`new` exists despite no_new")
    if "builder" not in special and "builder" in got:
        add({"C23"}, "extra-builder", "builder", "`builder()` exists though no builder was asked for")
    # -- signatures, visibility, attributes
    for nme, (fm, k, h) in want.items():
        f = got.get(nme)
        if f is None:
            continue
        n += 3
        asy, recv, arg, rex = sig(fm, k)
        base = {"get": {"C13"}, "reader": {"C13"}, "get_mut": {"C14"}, "set": {"C11"}, "clearer": {"C12"}, "predicate": {"C12"}, "writer": {"C06"}}[k]
        o = nt(f["output"])
        if not re.fullmatch(rex, o):
            p = set(base)
            if fm.lazy and (fm.fallible or "Result<" in o):
                p.add("C30")
            if fm.protected:
                p |= {"C06"}
            if fm.storage == "inner":
                p.add("C31")
            if "generic" in s.tags:
                p.add("C29")
            add(p, "return-type", nme, "returns %s, should be like %s" % (o, rex.replace("\\", "")))
        r = nt(f["inputs"][0]) if f["inputs"] else ""
        if not (r.startswith(recv) and (recv != "&" or not r.startswith("&mut "))):
            add(base | ({"C31"} if fm.storage == "inner" else set()) | ({"C06"} if fm.protected else set()), "receiver", nme, "takes `%s`, should take `%sself`" % (r, recv))
        if len(f["inputs"]) != (2 if arg else 1):
            add(base, "arguments", nme, "takes %s" % f["inputs"])
        elif arg:
            a = nt(f["inputs"][1])
            if fm.set_into:
                if not any(re.search(r"Into<%s>" % arg, nt(p)) for p in f["preds"]):
                    add(base, "into", nme, "takes `%s`, should take `impl Into<%s>`" % (a, fm.ty))
            elif not re.fullmatch(arg, a):
                add(base, "argument", nme, "takes `%s`, should take `%s`" % (a, fm.ty))
        if f["async"] != asy:
            add({"C33"} | ({"C32"} if "mode" in s.tags else set()), "async", nme, "is %san async fn" % ("" if f["async"] else "not "))
        if f["future"] and fm.mode == "async" and "nosend" not in s.tags and sm.rc != "Rc" and not any(x.mode == "plain" and x.storage in ("lazy", "inner") for x in sm.fields) and not (k == "set" and fm.set_into):
            n += 1
            if f["future"].get("send") is not True:
                add({"C08"}, "future-send", nme, "its future is not Send")
        w = vis_text(h.vis, s.mod)
        n += 1
        if f["vis"] != w:
            add({"C17"}, "visibility", nme, "the %s helper of `%s` is visible in `%s`, should be `%s`" % (k, fm.name, f["vis"], w))
        n += 1
        a, b = attr_marks(f["attrs"]), want_marks(h.attrs)
        if a != b:
            add({"C28"}, "attributes", nme, "the %s helper of `%s` carries %s, should carry %s" % (k, fm.name, sorted(a), sorted(b)))
        for q in lost_texts(f["attrs"], h.attrs):
            add({"C28"}, "attributes", nme, "the %s helper of `%s` lost the text \"%s\" of an attribute" % (k, fm.name, q))
    for nme in got:
        if nme in want:
            continue
        n += 1
        a = attr_marks(got[nme]["attrs"])
        if nme == "builder":
            w = want_marks(sm.builder_attrs("attributes_fn"))
        else:
            w = set()
        if a != w and not (nme == "builder" and a == set()):
            add({"C28"}, "attributes", nme, "`%s` carries %s, should carry %s" % (nme, sorted(a), sorted(w)))
    # -- storage
    st = it.struct
    if st is None:
        add({"C18"}, "no-struct", s.name, "the struct is gone")
        return out, n
    names = [f["name"] for f in st["fields"] if not f["name"].startswith("__")]
    n += 1
    if names != [f.name for f in sm.fields]:
        add({"C18"}, "fields", s.name, "has fields %s, declared %s" % (names, [f.name for f in sm.fields]))
    sf = {f["name"]: f for f in st["fields"]}
    for fm in sm.fields:
        f = sf.get(fm.name)
        if f is None:
            continue
        n += 2
        T = re.escape(nt(fm.ty))
        O = "Option<%s>" % T if fm.optional else T
        me = re.escape(nt(sm.gty()))
        b = (r"FXBuilderFallible<%s, %s, %s>" % (me, T, re.escape(nt(fm.fallible)))) if fm.fallible else r"FXBuilderInfallible<%s, %s>" % (me, T)
        rex = {("lazy", True): r"FXProxy%s<%s>" % (fm.mode.capitalize(), b), ("lazy", False): r"OnceCell<%s>" % T, ("lock", True): r"FXRwLock%s<%s>" % (fm.mode.capitalize(), O), ("inner", False): r"RefCell<%s>" % O}.get((fm.storage, fm.protected), O)
        if not re.fullmatch(rex, nt(f["ty"])):
            p = {"C18"}
            if fm.mode != sm.mode or "mode" in s.tags:
                p.add("C32")
            if fm.skip:
                p.add("C35")
            if fm.storage == "inner":
                p.add("C31")
            if fm.fallible or "Fallible" in f["ty"] and fm.lazy:
                p.add("C30")
            if "generic" in s.tags:
                p.add("C29")
            add(p, "storage", fm.name, "is stored as %s, should be %s" % (nt(f["ty"]), rex.replace("\\", "")))
        w = vis_text(fm.f.vis or "priv", s.mod)
        if f["vis"] != w:
            add({"C18", "C17"}, "field-visibility", fm.name, "field is visible in %s, declared %s" % (f["vis"], w))
    n += 1
    if st["vis"] != vis_text(s.vis or "priv", s.mod):
        add({"C17", "C18"}, "struct-visibility", s.name, "struct is visible in %s, declared %s" % (st["vis"], s.vis))
    # -- generics of the struct, Default, Send/Sync
    if s.generics or s.where:
        n += 1
        if len(st["generics"]) != s.generics.count(",") + 1:
            add({"C29"}, "generics", s.name, "struct has parameters %s, declared %s" % (st["generics"], s.generics))
    has_default = any((i["trait"] or "").endswith("core::default::Default>") and it.path + s.name in i["self"] for i in res.impls)
    n += 1
    if sm.want_default is not None and has_default != sm.want_default and "Default" not in s.derives:
        add({"C19"}, "default-impl", "Default", "Default is %simplemented" % ("" if has_default else "not "))
    if "marker" in s.tags:
        want_send, want_sync = s.marker
        n += 2
        if st["send"] is not want_send:
            add({"C08"}, "send", s.name, "Send is %s, should be %s" % (st["send"], want_send))
        if st["sync"] is not want_sync:
            add({"C08"}, "sync", s.name, "Sync is %s, should be %s" % (st["sync"], want_sync))
    for i in res.impls:
        n += 1
        if i["trait"] and i["unsafe"] and ("Send" in i["trait"] or "Sync" in i["trait"]):
            add({"C08"}, "forged-marker", i["self"], "an unsafe impl of %s is generated" % i["trait"])
    return out, n
