"""What the documentation of fieldx promises for a given declaration: an independent model, computed from the attribute text."""
import json, re


# ---------------------------------------------------------------- attribute text
def split_top(s, sep=","):
    out, cur, depth, q = [], "", 0, None
    i = 0
    while i < len(s):
        c = s[i]
        if q:
            cur += c
            if c == "\\":
                i += 1
                cur += s[i]
            elif c == q:
                q = None
        elif c == '"':
            q = c
            cur += c
        elif c in "([{<":
            depth += 1
            cur += c
        elif c in ")]}>" and not (c == ">" and cur.endswith("-")):
            depth -= 1
            cur += c
        elif c == sep and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


class Arg:
    """One attribute argument: `name`, `name(sub, ...)`, or a literal."""

    def __init__(self, text):
        self.text = text
        text = re.sub(r"^([A-Za-z_#][\w#]*)\s*=\s*(.*)$", lambda m: m.group(1) if m.group(2) == "true" else "%s(%s)" % (m.group(1), "off" if m.group(2) == "false" else m.group(2)), text, flags=re.S)
        m = re.match(r"^([A-Za-z_#][\w#]*)\s*(?:\((.*)\))?$", text, re.S)
        if m and not text.startswith('"'):
            self.name, self.body = m.group(1), m.group(2)
        else:
            self.name, self.body = None, text
        self.subs = [Arg(x) for x in split_top(self.body)] if self.body and self.name else []

    def sub(self, n):
        for s in self.subs:
            if s.name == n:
                return s
        return None

    def has(self, n):
        s = self.sub(n)
        return s is not None and not (s.subs and s.subs[0].name == "off")

    @property
    def off(self):
        return self.sub("off") is not None

    @property
    def lit(self):
        for s in self.subs:
            if s.name is None and s.body.startswith('"'):
                return s.body[1:-1]
        return None


def parse(text):
    d = {}
    for t in split_top((text or "").replace(")] #[fieldx(", ", ")):
        a = Arg(t)
        d[a.name.replace("r#", "")] = a
    return d


# ---------------------------------------------------------------- declarations
class F:
    def __init__(self, name, ty="T1", args="", vis="", attrs=(), kind=None):
        self.name, self.ty, self.text, self.vis, self.attrs = name, ty, args, vis, list(attrs)
        self.args = parse(args)


class S:
    """A specimen: one fxstruct declaration with the functions its user has to supply."""

    def __init__(self, args="", fields=(), vis="pub", derives="", generics="", gargs="", where="", tags=(), extra="", attrs="", expect="ok", harness=(), cfg=None, name="Foo", note="", user=(), serde_derive=False):
        self.text, self.args, self.fields, self.vis = args, parse(args), list(fields), vis
        self.derives, self.generics, self.gargs, self.where = derives, generics, gargs, where
        self.tags, self.extra, self.attrs, self.expect = set(tags), extra, attrs, expect
        self.harness, self.name, self.note, self.user = list(harness), name, note, list(user)
        self.mod = None


def on(field, struct, n):
    """field-level argument over struct-level argument; None when neither is given."""
    for d in (field, struct):
        if n in d:
            return not d[n].off
    return None


HELPERS = ("get", "get_mut", "set", "reader", "writer", "clearer", "predicate")
PREFIX = {"get": "", "get_mut": "", "set": "set_", "reader": "read_", "writer": "write_", "clearer": "clear_", "predicate": "has_", "lazy": "build_"}


class Helper:
    def __init__(self, kind, name, vis, attrs):
        self.kind, self.name, self.vis, self.attrs = kind, name, vis, attrs

    def __repr__(self):
        return "%s:%s" % (self.kind, self.name)


def vis_of(arg):
    """Visibility named by a `public`/`private` pair in an argument dict (name->Arg), or None."""
    if arg is None:
        return None
    subs = {s.name: s for s in arg.subs} if isinstance(arg, Arg) else arg
    if "private" in subs and not subs["private"].off:
        return "priv"
    if "public" in subs and not subs["public"].off:
        p = subs["public"]
        return "pub" if not p.subs else "pub(in %s)" % p.subs[0].body if p.subs[0].name == "in_mod" else "pub(%s)" % p.subs[0].text
    return None


def attr_list(arg, n="attributes_fn"):
    s = arg.sub(n) if isinstance(arg, Arg) else None
    return [x.text for x in s.subs] if s is not None else None


class FM:
    """Resolved field."""

    def __init__(self, sm, f):
        s = sm.s
        self.f, self.name, self.ty = f, f.name.replace("r#", ""), f.ty
        fa, sa = f.args, s.args
        self.skip = "skip" in fa and not fa["skip"].off
        self.mode = sm.mode_for(f)
        self.base = None
        if "rename" in fa:
            self.base = fa["rename"].lit
        self.base = (self.base or self.name).replace("r#", "")
        if self.skip:
            fa2 = {k: v for k, v in fa.items() if k == "default"}
            self.lazy = self.optional = self.lock = self.inner_mut = False
            self.helpers, self.fallible = {}, None
            self.storage = "skip"
            self.default = fa2.get("default")
            self.builder = None
            self.set_into = False
            self.lazy_fn = None
            return
        self.lazy = bool(on(fa, sa, "lazy"))
        need = {k: bool(on(fa, sa, k)) for k in ("clearer", "predicate", "get_mut", "set", "reader", "writer")}
        o = on(fa, sa, "optional")
        self.optional = (o if o is not None else (need["clearer"] or need["predicate"])) and not self.lazy
        im = bool(on(fa, sa, "inner_mut"))
        lk = on(fa, sa, "lock")
        self.lock = self.mode != "plain" and not self.lazy and (lk if lk is not None else (need["reader"] or need["writer"] or self.optional))
        self.inner_mut = im and not self.lazy and not self.lock
        g = on(fa, sa, "get")
        need["get"] = g if g is not None else (need["clearer"] or need["predicate"] or self.lazy or im)
        self.fallible = None
        fl = on(fa, sa, "fallible")
        if fl and self.lazy:
            for d in (fa, sa):
                if "fallible" in d and d["fallible"].sub("error"):
                    self.fallible = d["fallible"].sub("error").subs[0].text
                    break
        self.default = fa.get("default")
        self.get_mode = self.accessor_mode(fa, sa)
        self.helpers = {}
        for k in HELPERS:
            if not need[k]:
                continue
            if k in ("reader", "writer") and self.mode == "plain":
                continue
            self.helpers[k] = Helper(k, self.helper_name(sm, k), self.helper_vis(sm, k), self.helper_attrs(sm, k))
        self.set_into = self.into(sm, "set")
        self.lazy_fn = self.helper_name(sm, "lazy") if self.lazy else None
        self.storage = "lazy" if self.lazy else ("lock" if self.lock else ("inner" if self.inner_mut else "bare"))
        self.builder = self.resolve_builder(sm)

    @staticmethod
    def accessor_mode(fa, sa):
        def m(d):
            if "get" in d and not d["get"].off:
                return next((x for x in ("clone", "copy", "as_ref") if d["get"].has(x)), None)

        def is_(w):
            for d in (fa, sa):
                if m(d):
                    return m(d) == w
                other = "copy" if w == "clone" else "clone"
                if other in d and not d[other].off:
                    return False
                if w in d:
                    return not d[w].off
            return False
        if m(fa):
            return m(fa)
        for w in ("copy", "clone"):
            if is_(w):
                return w
        return "as_ref" if m(sa) == "as_ref" else None

    def resolve_builder(self, sm):
        fa, ba = self.f.args, sm.builder_arg
        fb = fa.get("builder")
        sb = ba if ba is not None and not ba.off else None
        if fb is not None:
            on_ = not fb.off
        else:
            on_ = sm.has_builder and not sm.opt_in
        name = (sb.lit if sb is not None and sb.lit is not None else "") + self.base
        if fb is not None and fb.lit:
            name = fb.lit
        into = False
        for d in (fb, fa.get("into"), sb, sm.s.args.get("into")):
            if d is None:
                continue
            if d.name == "into":
                into = not d.off
                break
            if d.sub("into"):
                into = d.has("into")
                break
        has_init = self.lazy or self.optional or (self.default is not None and not self.default.off)
        req = None
        for d in (fb, sb):
            if d is not None and d.sub("required"):
                req = d.has("required")
                break
        req = (not has_init) if req is None else (req or not has_init)
        attrs = []
        for d in (fb, fa.get("attributes_fn"), sb):
            if d is None:
                continue
            if d.name == "attributes_fn":
                attrs = [x.text for x in d.subs]
                break
            a = attr_list(d)
            if a is not None:
                attrs = a
                break
        return {"on": on_, "name": name, "into": into, "required": on_ and req, "attrs": attrs}

    def helper_name(self, sm, k):
        fa, sa = self.f.args, sm.s.args
        if k in fa and fa[k].lit:
            return fa[k].lit.replace("r#", "")
        p = sa[k].lit if k in sa and sa[k].lit is not None else None
        p = PREFIX[k] if p is None else p
        return p + self.base + ("_mut" if k == "get_mut" else "")

    def helper_vis(self, sm, k):
        fa, sa = self.f.args, sm.s.args
        for v in (vis_of(fa.get(k)), vis_of(fa), vis_of(sa.get(k)), vis_of(sa)):
            if v:
                return v
        return sm.s.vis or "priv"

    def helper_attrs(self, sm, k):
        fa, sa = self.f.args, sm.s.args
        if k in fa:
            a = attr_list(fa[k])
            if a is not None:
                return a
        if "attributes_fn" in fa:
            return [x.text for x in fa["attributes_fn"].subs]
        if k in sa:
            a = attr_list(sa[k])
            if a is not None:
                return a
        return []

    def into(self, sm, k):
        fa, sa = self.f.args, sm.s.args
        for d in (fa, sa):
            if k in d and d[k].sub("into"):
                return d[k].has("into")
            if "into" in d:
                return not d["into"].off
        return False

    @property
    def protected(self):
        return self.storage in ("lazy", "lock") and self.mode != "plain"

    @property
    def content_ty(self):
        return "Option<%s>" % self.ty if (self.optional or self.lazy) else self.ty


class SM:
    """Resolved struct."""

    def __init__(self, s):
        self.s = s
        a = s.args
        self.mode = self.struct_mode()
        self.builder_arg = a.get("builder")
        fb = [f for f in s.fields if "builder" in f.args and not f.args["builder"].off]
        if self.builder_arg is not None:
            self.has_builder = not self.builder_arg.off
            self.opt_in = self.has_builder and self.builder_arg.has("opt_in")
        else:
            self.has_builder = bool(fb)
            self.opt_in = bool(fb)
        self.fields = [FM(self, f) for f in s.fields]
        self.rc = None
        if "rc" in a and not a["rc"].off:
            self.rc = "Arc" if self.mode != "plain" else "Rc"
        # helpers of reference-counted structs
        self.rc_helpers, self.weak_field = {}, None
        if self.rc:
            nm = a["rc"].lit or "myself"
            v = vis_of(a["rc"]) or "priv"
            self.rc_helpers = {nm: v, nm + "_downgrade": v}
            self.weak_field = "__weak_" + nm
        self.no_new = "no_new" in a and not a["no_new"].off
        ba = self.builder_arg if self.has_builder else None
        self.builder_vis = (vis_of(ba) if ba is not None else None) or s.vis or "priv"
        self.builder_error, self.error_variant, self.post_build = None, None, None
        if ba is not None:
            e = ba.sub("error")
            if e:
                self.builder_error = e.subs[0].text
                self.error_variant = e.subs[1].text if len(e.subs) > 1 else None
            pb = ba.sub("post_build")
            if pb and not pb.off:
                self.post_build = pb.subs[0].text if pb.subs else "post_build"
        self.user_fns = set(x for x in [self.post_build] if x)

        self.forced_default = bool(on({}, a, "default"))
        self.want_default = None
        if not s.derives or "Default" not in s.derives:
            need = self.forced_default or not self.no_new or any(f.default is not None for f in self.fields)
            self.want_default = True if need else None
        if "default" in a and a["default"].off:
            # without Default there is no new() either
            self.want_default, self.no_new = False, True

    def missing_error(self, miss):
        """What Err(..) may carry when the required fields `miss` were not given (build() names one of them)."""
        from oracle import Pat
        out = []
        for k in miss:
            d = 'UninitializedField("%s")' % k

            def f(t, k=k):
                x = json.dumps(t).replace('"r#', '"')
                if self.error_variant:
                    head = ["enum", self.error_variant.split("::")[-1]]
                    return t[:2] == head and '"%s' % k in x.replace('\\', "")
                if '"%s' % k not in x.replace('\\', "") or "UninitializedField" not in x:
                    return False
                if self.builder_error:
                    return t[0] == "sym" and t[1].startswith("from(")
                return t[:2] == ["enum", "UninitializedField"]
            out.append(Pat(d, f))
        return out

    def builder_attrs(self, n):
        return [x.text for x in self.builder_arg.sub(n).subs] if self.builder_arg is not None and self.builder_arg.sub(n) else []

    @staticmethod
    def spelled(a):
        """Mode named by explicit arguments: plain/sync/async, or None."""
        if "sync" in a and not a["sync"].off:
            return "sync"
        if "async" in a and not a["async"].off:
            return "async"
        if "mode" in a:
            return a["mode"].subs[0].name
        if "sync" in a or "async" in a:
            return "plain"
        return None

    def struct_mode(self):
        a = self.s.args
        m = self.spelled(a)
        if m:
            return m
        if any(k in a and not a[k].off for k in ("lock", "reader", "writer")):
            return "sync"
        for f in self.s.fields:
            if self.own_mode(f, "sync") not in (None, "plain"):
                return "sync"
        return "plain"

    def own_mode(self, f, protected):
        """Mode a field's own arguments ask for; `protected` is what lock/reader/writer mean here."""
        a = f.args
        m = self.spelled(a)
        if m:
            return m
        if "lock" in a:
            return "plain" if a["lock"].off else protected
        if "inner_mut" in a and not a["inner_mut"].off:
            return "plain"
        if any(k in a and not a[k].off for k in ("reader", "writer")):
            return protected
        return None

    def mode_for(self, f):
        return self.own_mode(f, "async" if self.mode == "async" else "sync") or self.mode

    def gty(self):
        return self.s.name + (self.s.gargs or "")


# ---------------------------------------------------------------- specimen text
def user_fns(sm):
    """Functions the user must supply (never run, only their signatures matter)."""
    out = []
    for f in sm.fields:
        if f.lazy:
            r = f.ty if not f.fallible else "::core::result::Result<%s, %s>" % (f.ty, f.fallible)
            out.append("#[inline(never)] %sfn %s(&self) -> %s { loop {} }" % ("async " if f.mode == "async" else "", f.lazy_fn, r))
    return out


def render(s):
    sm = SM(s)
    o = []
    if s.attrs:
        o.append(s.attrs)
    o.append("#[fxstruct(%s)]" % s.text)
    if s.derives:
        o.append("#[derive(%s)]" % s.derives)
    o.append("%s struct %s%s %s {" % (s.vis, s.name, s.generics, s.where))
    for f in s.fields:
        for a in f.attrs:
            o.append("    " + a)
        if f.text:
            o.append("    #[fieldx(%s)]" % f.text)
        o.append("    %s %s: %s," % (f.vis, f.name, f.ty))
    o.append("}")
    u = user_fns(sm) + list(s.user)
    if u:
        o.append("impl%s %s %s {" % (re.sub(r" = [^,>]*", "", s.generics), sm.gty(), s.where))
        o += ["    " + x for x in u]
        o.append("}")
    if s.extra:
        o.append(s.extra)
    for h in s.harness:
        o.append(h)
    return "\n".join(o)
