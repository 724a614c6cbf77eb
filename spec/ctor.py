"""Rules on constructors: new(), Default, builder(), builder setters and build()."""
import itertools, json, re
from oracle import Finding, Pat, match, ptext, NONE, some, sym, guards_in
from norm import show
from items import Items, nt, vis_text, attr_marks, want_marks


def calls_norm(t):
    """Drop the running number of opaque calls (`mk_t1#2()` -> `mk_t1()`), and type paths inside default<..>."""
    if isinstance(t, list):
        if t and t[0] == "sym":
            return ["sym", re.sub(r"default<(.*)>", lambda m: "default<%s>" % nt(m.group(1)), re.sub(r"\b(\w+)#\d+\(", r"\1(", t[1]))]
        return [calls_norm(x) for x in t]
    if isinstance(t, dict):
        return {k: calls_norm(v) for k, v in t.items()}
    return t


def flat(t):
    return json.dumps(t)


def lock_content(c, shared=False):
    def f(t):
        return isinstance(t, list) and t[0] == "lock" and match(c, t[1]["content"]) and t[1]["agrees"] in (None, True)
    return Pat("Lock[%s]" % ptext(c), f)


def opened(t, name, is_opt_of):
    """Replace the whole-option symbol `name` by its assumed variant."""
    if isinstance(t, list):
        if t and t[0] == "sym" and t[1] == name:
            return NONE if is_opt_of == "none" else some(sym(name + "@Some.0"))
        return [opened(x, name, is_opt_of) for x in t]
    if isinstance(t, dict):
        return {k: opened(v, name, is_opt_of) for k, v in t.items()}
    return t


def default_of(fm):
    ty = nt(fm.ty)
    m = re.match(r"Option<", ty)
    if m:
        return NONE
    return Pat("default<%s>" % ty, lambda t: t == sym("default<%s>" % ty) or (t == ["int", 0] and ty in ("bool", "u8", "u16", "u32", "u64", "i32", "i64", "usize")) or (ty == "String" and t == sym("String::default()")))


def init(fm, v):
    """What the stored field must look like when given value tree `v` (None: nothing)."""
    opt = fm.lazy or fm.optional
    c = (some(v) if v is not None else NONE) if opt else (v if v is not None else default_of(fm))
    if fm.storage == "inner":
        return lock_content(c)
    if fm.storage == "lazy" and fm.mode != "plain":
        def f(t):
            if not (isinstance(t, list) and t[0] == "struct"):
                return False
            parts = list(t[2].values())
            val = [p for p in parts if p[0] == "lock" and p[1]["agrees"] is not None]
            flag = [p for p in parts if p[0] == "atom"]
            rest = [p for p in parts if p not in val and p not in flag]
            if len(val) != 1 or not match(c, val[0][1]["content"]) or val[0][1]["agrees"] is not True:
                return False
            if len(flag) != 1 or flag[0][1] != ["int", 0 if v is None else 1]:
                return False
            return builds_with(rest, fm)
        return Pat("unlocked lazy container of %s, %sset, building with %s" % (ptext(c), "" if v is not None else "un", fm.lazy_fn), f)
    if fm.storage == "lock" and fm.mode != "plain":
        return Pat("Lock[%s]" % ptext(c), lambda t: isinstance(t, list) and t[0] == "struct" and len(t[2]) == 1 and lock_content(c).f(list(t[2].values())[0]))
    return c


def builds_with(parts, fm):
    s = flat(parts)
    fns = re.findall(r'\["fn", "((?:[^"\\]|\\.)*)"\]', s)
    return len(fns) == 1 and re.match(r"(?:await\()?%s(?:#\d+)?\(&?\$0\)" % re.escape(fm.lazy_fn), fns[0]) is not None


def default_tree(fm):
    """Tree of the field's declared default value."""
    if fm.default is None or fm.default.off:
        return None
    d = fm.default
    if d.subs and d.body is not None:
        b = d.body.strip()
        m = re.match(r"^(?:Self::)?(\w+)\(\)$", b)
        if m:
            return sym("%s()" % m.group(1))
        if b.startswith('"'):
            return Pat(b, lambda t: b.strip('"') in flat(t))
        if re.match(r"^\d+$", b):
            return ["int", int(b)]
        if b in ("true", "false"):
            return ["int", int(b == "true")]
        if re.match(r"^'.'$", b):
            return ["int", ord(b[1])]
    return None


def scope(sm):
    """Properties the constructor rules of this declaration bear on."""
    p = {"C19"}
    if sm.has_builder:
        p |= {"C20", "C21", "C23"}
        if sm.builder_error or sm.post_build:
            p.add("C22")
    if sm.weak_field:
        p.add("C24")
    if any(f.skip for f in sm.fields):
        p.add("C35")
    return p


def judge_ctors(res, sm):
    out, n = [], 0
    s = sm.s
    it = Items(res, sm)
    weak = sm.weak_field

    def add(props, rule, where, text):
        out.append(Finding(props, rule, where, text))

    def fields_ok(tree, vals, props, where, inrc):
        """`tree` must be the struct with every field initialized as documented."""
        nonlocal n
        if not (isinstance(tree, list) and tree[0] == "struct" and tree[1] == s.name):
            add(props, "not-the-object", where, "produces %s" % show(tree))
            return
        for fm in sm.fields:
            n += 1
            e = init(fm, vals[fm.name])
            g = tree[2].get(fm.name)
            if not match(e, g):
                p = set(props)
                if fm.skip:
                    p.add("C35")
                if fm.lazy and fm.mode != "plain" and g is not None and re.search(r'"agrees": false', flat(g)):
                    p.add("C03")
                add(p, "field:%s" % fm.name, where, "field `%s` starts as %s, should be %s" % (fm.name, show(g) if g is not None else "nothing", ptext(e)))
        if weak:
            w = tree[2].get(weak)
            n += 1
            # a fallible post_build() cannot run inside new_cyclic, so there is no allocation to point to yet
            if inrc and w != ["weak", "^"] and not (sm.post_build and (sm.builder_error or isinstance(w, list) and w[0] == "weak")):
                add({"C24"}, "weak", where, "the self pointer is %s, should point to the new allocation" % show(w))

    declared = {fm.name: default_tree(fm) for fm in sm.fields}
    # ---- new / Default
    for nme, path in (("new", it.path + s.name + "::new"), ("default", "<%s as core::default::Default>::default" % (it.path + s.name)), ("__fieldx_new", it.path + s.name + "::__fieldx_new")):
        f = next((v for k, v in res.outcomes.items() if k == path or (nme == "default" and re.match(r"<%s(?:<.*>)? as core::default::Default>::default$" % re.escape(it.path + s.name), k)) or (nme != "default" and re.match(r"%s(?:::)?(?:<.*>)?::%s$" % (re.escape(it.path + s.name), nme), k))), None)
        if f is None or nme in it.user:
            continue
        if nme == "default" and "Default" in s.derives:
            continue
        if not f["complete"]:
            add({"C19"}, "undecided", nme, "exploration incomplete")
        good = 0
        for o in f["outcomes"]:
            n += 1
            if o["exit"] == "bad":
                add({"C19"}, "undecided", nme, "path not understood: %s" % o["ret"])
            elif o["exit"] == "panic":
                if not from_user(o, sm):
                    add({"C19"}, "panic", nme, "can panic: %s" % why(o))
            elif o["exit"] == "return":
                good += 1
                t = calls_norm(o["ret"])
                if nme in ("new", "__fieldx_new") and sm.rc:
                    if t[0] != "rc":
                        add({"C24"}, "not-rc", nme, "returns %s, not a %s" % (show(t)[:200], sm.rc))
                        continue
                    t = t[1]
                    fields_ok(t, declared, {"C19"}, nme, True)
                else:
                    fields_ok(t, declared, {"C19"}, nme, False)
                if o["held"]:
                    add({"C07"}, "held-at-exit", nme, "ends holding %s" % o["held"])
        if not good:
            add({"C19"}, "never-returns", nme, "no path returns an object")
    # return types of new/build
    if sm.rc and "new" in it.methods():
        n += 1
        o = nt(it.methods()["new"]["output"])
        if o != "%s<%s>" % (sm.rc, nt(sm.gty())) and not s.generics:
            add({"C24"}, "return-type", "new", "returns %s, should be %s<%s>" % (o, sm.rc, sm.gty()))
    # ---- rc helpers
    if sm.rc:
        for i, nme in enumerate(sm.rc_helpers):
            f = next((v for k, v in res.outcomes.items() if k.startswith(it.path + s.name) and k.endswith("::" + nme)), None)
            if f is None:
                continue
            n += 1
            w = sym(("upgrade(self.%s)" if i == 0 else "share(self.%s)") % weak)
            rets = [o["ret"] for o in f["outcomes"] if o["exit"] == "return"]
            ok_up = all(r == w or (i == 0 and r[0] == "enum" and (r[1] == "None" and o_cond(o, "upgrade(self.%s)" % weak) == "v0" or r == some(sym("upgrade(self.%s)@Some.0" % weak)))) for o, r in ((o, o["ret"]) for o in f["outcomes"] if o["exit"] == "return"))
            if not rets or not ok_up or any(o["exit"] != "return" for o in f["outcomes"]):
                add({"C24"}, "self-handle", nme, "returns %s, should %s the object's own weak pointer" % (", ".join(show(r) for r in rets), "upgrade" if i == 0 else "clone"))
            g = it.methods().get(nme)
            if g:
                n += 1
                want = ("Option<%s<%s>>" % (sm.rc, nt(sm.gty()))) if i == 0 else "Weak<%s>" % nt(sm.gty())
                if nt(g["output"]) != want:
                    add({"C24"}, "return-type", nme, "returns %s, should be %s" % (nt(g["output"]), want))
    # ---- builder
    bname = s.name + "Builder"
    bst = next((x for x in res.structs if x["path"] == it.path + bname), None)
    n += 1
    if (bst is not None) != sm.has_builder:
        add({"C23"}, "builder-type", bname, "builder type %s though %s" % ("exists" if bst else "is missing", "not asked for" if bst else "asked for"))
        return out, n
    if not sm.has_builder:
        return out, n
    want_fields = {fm.name: fm for fm in sm.fields if fm.builder and fm.builder["on"]}
    meths = {k: v for k, v in it.fns.get(bname, {}).items()}
    setters = {fm.builder["name"]: fm for fm in want_fields.values()}
    fixed = {"new", "build"}
    for nme, fm in setters.items():
        n += 1
        if nme not in meths:
            add({"C23", "C16"} if any(m not in setters and m not in fixed for m in meths) else {"C23"}, "no-setter", "%s::%s" % (bname, nme), "builder has no setter `%s` for field `%s`; it has %s" % (nme, fm.name, sorted(meths)))
    for nme, f in meths.items():
        n += 1
        if nme in fixed:
            w = vis_text(sm.builder_vis, s.mod)
            if f["vis"] != w:
                add({"C17"}, "visibility", "%s::%s" % (bname, nme), "is visible in %s, should be %s" % (f["vis"], w))
            continue
        if nme not in setters:
            p = {"C23"} | ({"C35"} if any(f2.skip and f2.name == nme for f2 in sm.fields) else set()) | ({"C16"} if any(x not in meths for x in setters) else set())
            add(p, "extra-setter", "%s::%s" % (bname, nme), "builder has a setter `%s` nobody asked for" % nme)
            continue
        fm = setters[nme]
        if f["vis"] != "pub":
            add({"C17"}, "visibility", "%s::%s" % (bname, nme), "builder setter is visible in %s only" % f["vis"])
        n += 1
        a = nt(f["inputs"][1]) if len(f["inputs"]) == 2 else "?"
        if fm.builder["into"]:
            if not any(re.search(r"Into<%s>" % re.escape(nt(fm.ty)), nt(p)) for p in f["preds"]):
                add({"C20"}, "into", "%s::%s" % (bname, nme), "takes `%s`, should take anything Into<%s>" % (a, fm.ty))
        elif a != nt(fm.ty):
            add({"C20"} | ({"C29"} if "generic" in s.tags else set()), "argument", "%s::%s" % (bname, nme), "takes `%s`, should take `%s`" % (a, fm.ty))
        n += 1
        am, wm = attr_marks(f["attrs"]), want_marks(fm.builder["attrs"])
        if am != wm:
            add({"C28"}, "attributes", "%s::%s" % (bname, nme), "carries %s, should carry %s" % (sorted(am), sorted(wm)))
    n += 1
    if bst["vis"] != vis_text(sm.builder_vis, s.mod):
        add({"C17"}, "visibility", bname, "builder type is visible in %s, should be %s" % (bst["vis"], vis_text(sm.builder_vis, s.mod)))
    am, wm = attr_marks(bst["attrs"]), want_marks(sm.builder_attrs("attributes") or ([x.text for x in s.args["attributes"].subs] if "attributes" in s.args else []))
    n += 1
    if am != wm:
        add({"C28"}, "attributes", bname, "builder type carries %s, should carry %s" % (sorted(am), sorted(wm)))
    if s.generics:
        n += 1
        if len(bst["generics"]) != s.generics.count(",") + 1:
            add({"C29"}, "generics", bname, "builder type has parameters %s" % bst["generics"])
    outc = {k[len(it.path):]: v for k, v in res.outcomes.items() if k.startswith(it.path)}

    def oc(t, m):
        return next((v for k, v in outc.items() if re.match(r"%s(?:::)?(?:<.*>)?::%s$" % (t, m), k)), None)

    # builder(): everything unset
    for t, m in ((s.name, "builder"), (bname, "new")):
        f = oc(t, m)
        if f is None:
            add({"C20"}, "anchor", "%s::%s" % (t, m), "not analysed")
            continue
        for o in f["outcomes"]:
            n += 1
            if o["exit"] != "return" or not (o["ret"][0] == "struct" and all(v == NONE for k, v in o["ret"][2].items() if not k.startswith("__"))):
                add({"C20"}, "builder-not-empty", "%s::%s" % (t, m), "%s %s" % (o["exit"], show(o["ret"])))
    # setters
    for nme, fm in setters.items():
        f = oc(bname, nme)
        if f is None:
            if nme in meths:
                add({"C20"}, "anchor", "%s::%s" % (bname, nme), "not analysed")
            continue
        for o in f["outcomes"]:
            n += 1
            if o["exit"] == "bad":
                add({"C20"}, "undecided", "%s::%s" % (bname, nme), str(o["ret"]))
                continue
            if o["exit"] != "return":
                if not from_user(o, sm):
                    add({"C20"}, "exit", "%s::%s" % (bname, nme), "can %s" % o["exit"])
                continue
            arg = sym("into(arg2)") if fm.builder["into"] else sym("arg2")
            t = o["ret"]
            if t[0] == "ref":
                t = t[2]
            bad = []
            if t[0] != "struct":
                bad.append("returns %s" % show(t))
            else:
                for k, v in t[2].items():
                    if k == fm.name:
                        if v != some(arg):
                            bad.append("sets `%s` to %s, should be %s" % (k, show(v), show(some(arg))))
                    elif v != sym("self." + k):
                        bad.append("changes `%s` to %s" % (k, show(v)))
            for b in bad:
                add({"C20"}, "setter-effect", "%s::%s" % (bname, nme), b)
    # build()
    f = oc(bname, "build")
    if f is None:
        add({"C20", "C21"}, "anchor", bname + "::build", "not analysed")
        return out, n
    n += judge_build(sm, f, want_fields, declared, fields_ok, add, bname)
    g = meths.get("build")
    if g:
        n += 1
        e = nt(sm.builder_error) if sm.builder_error else "FieldXError"
        inner = nt(sm.gty())
        inner = "%s<%s>" % (sm.rc, inner) if sm.rc else inner
        if nt(g["output"]) != "Result<%s, %s>" % (inner, e):
            add({"C22"} | ({"C24"} if sm.rc else set()) | ({"C29"} if "generic" in s.tags else set()), "return-type", bname + "::build", "returns %s, should be Result<%s, %s>" % (nt(g["output"]), inner, e))
    return out, n


def o_cond(o, k):
    return o["cond"].get(k)


def from_user(o, sm):
    """The panic came out of user code (default expressions, conversions, post_build)."""
    ws = [str(e.get("why", "")) for e in o["events"] if e["e"] == "panic"]
    return bool(ws) and all(re.search(r"(^|::)(mk_\w+|dflt\w*|into|from|clone|default|%s)\b" % "|".join(sorted(sm.user_fns) or ["-"]), w) for w in ws)


def why(o):
    return "; ".join(str(e.get("why", "")) for e in o["events"] if e["e"] == "panic")


def unself(t, sm):
    """The struct made of the builder's same-named fields is summarised as the builder itself: spell it out."""
    if t == ["sym", "self"]:
        return ["struct", sm.s.name, {f.name: ["sym", "self." + f.name] for f in sm.fields}]
    if isinstance(t, list):
        return [unself(x, sm) for x in t]
    if isinstance(t, dict):
        return {k: unself(x, sm) for k, x in t.items()}
    return t


def default_calls(sm, given):
    """How often each opaque function used by defaults has to run when these fields are given."""
    d = {}
    for fm in sm.fields:
        if fm.default is not None and not fm.default.off:
            for mk in re.findall(r"^\s*(?:\w+::)*(\w+)\(\)\s*$", fm.default.body or ""):
                d.setdefault(mk, 0)
                if given.get(fm.name) != "v1":
                    d[mk] += 1
    return d


def judge_build(sm, f, settable, declared, fields_ok, add, bname):
    n = 0
    where = bname + "::build"
    if not f["complete"]:
        add({"C20", "C21", "C22"}, "undecided", where, "exploration incomplete")
        return n
    names = sorted(settable)
    required = [x for x in names if settable[x].builder["required"]]
    for o in f["outcomes"]:
        if o["exit"] == "bad":
            add({"C20", "C21", "C22"}, "undecided", where, "path not understood: %s" % o["ret"])
            return n
        if o["exit"] == "panic" and not from_user(o, sm):
            add({"C21"}, "panic", where, "build() can panic (%s) with %s" % (why(o), o["cond"]))
        if o["held"]:
            add({"C07"}, "held-at-exit", where, "ends holding %s" % o["held"])
    for combo in itertools.product(("v0", "v1"), repeat=len(names)):
        given = dict(zip(names, combo))
        sit = ", ".join("%s %s" % (k, "given" if v == "v1" else "missing") for k, v in given.items()) or "no fields"
        mine = [o for o in f["outcomes"] if o["exit"] == "return" and all(o["cond"].get("self." + k, v) == v for k, v in given.items())]
        n += 1
        if not mine:
            add({"C21", "C20"}, "no-result", where, "with %s build() never returns" % sit)
            continue
        miss = [k for k in required if given[k] == "v0"]
        for o in mine:
            t = unself(o["ret"], sm)
            for k, v in given.items():
                t = opened(t, "self." + k, "none" if v == "v0" else "some")
            t = calls_norm(t)
            n += 1
            if t[0] != "enum" or t[1] not in ("Ok", "Err"):
                add({"C21", "C22"}, "result", where, "with %s: returns %s" % (sit, show(t)))
                continue
            pb = [e for e in o["events"] if e["e"] == "call" and sm.post_build and str(e.get("f", "")).split("::")[-1] == sm.post_build]
            if t[1] == "Err":
                pberr = sm.post_build and sm.builder_error and any("%s(" % sm.post_build in x for x in (flat(t),)) and "@Err.0" in flat(t)
                if pberr and not miss:
                    if len(pb) != 1 or not re.match(r'^\["enum", "Err", \[\["sym", "(?:from\()?%s\(.*\)@Err\.0\)?"\]\]\]$' % re.escape(sm.post_build), flat(t)):
                        add({"C22"}, "post-build-error", where, "with %s: returns %s" % (sit, show(t)))
                    continue
                if not miss:
                    add({"C21"}, "spurious-error", where, "with %s: fails with %s" % (sit, show(t)))
                    continue
                if pb:
                    add({"C22"}, "post-build-on-error", where, "post_build runs though a field is missing")
                if not any(match(p, t[2][0]) for p in sm.missing_error(miss)):
                    add({"C21", "C22"} if sm.builder_error else {"C21"}, "wrong-error", where, "with %s: fails with %s, should name %s via %s" % (sit, show(t), " or ".join(miss), sm.missing_error(miss)[0].text))
                continue
            if miss:
                add({"C21"}, "missing-accepted", where, "with %s: succeeds though required %s is missing" % (sit, ", ".join(miss)))
                continue
            v = t[2][0]
            if sm.rc:
                if v[0] != "rc":
                    add({"C24"}, "not-rc", where, "with %s: returns %s" % (sit, show(v)[:200]))
                    continue
                v = v[1]
            vals = dict(declared)
            for k in names:
                if given[k] == "v1":
                    vals[k] = sym("self.%s@Some.0" % k)
            props = {"C20"}
            for mk, k in default_calls(sm, given).items():
                n += 1
                c = sum(1 for e in o["events"] if e["e"] == "call" and str(e.get("f", "")).split("::")[-1] == mk)
                if c > k:
                    add({"C20"}, "default-evaluated", where, "with %s: evaluates the default `%s()` %d times, should be %d" % (sit, mk, c, k))
            if sm.post_build:
                n += 1
                if len(pb) != 1:
                    add({"C22"}, "post-build-count", where, "with %s: post_build runs %d times" % (sit, len(pb)))
                    continue
                if sm.builder_error and sm.rc and v[0] != "struct":
                    aw = unself(pb[0]["args"][0], sm)
                    aw = aw[2].get(sm.weak_field) if isinstance(aw, list) and aw[0] == "struct" else None
                    if aw != ["weak", "^"]:
                        add({"C24"}, "weak", where, "nothing points the object's self pointer to the new allocation: post_build() gets %s and returns the final object" % show(aw))
                if sm.builder_error and sm.rc and v[0] == "struct":
                    # what post_build() returned, with the self pointer set
                    if v[2].get(sm.weak_field) != ["weak", "^"]:
                        add({"C24"}, "weak", where, "the self pointer is %s, should point to the new allocation" % show(v[2].get(sm.weak_field)))
                    b = {x[1][:-len("." + k)] if isinstance(x, list) and x[0] == "sym" and x[1].endswith("." + k) else None for k, x in v[2].items() if k != sm.weak_field}
                    if len(b) == 1 and None not in b:
                        v = sym(b.pop())
                txt = v[1] if v[0] == "sym" else show(v)
                if not re.match(r"^%s\(.*\)%s$" % (re.escape(sm.post_build), "@Ok\\.0" if sm.builder_error else ""), txt, re.S):
                    add({"C22"}, "post-build-result", where, "with %s: returns %s, should be what post_build returned" % (sit, txt[:300]))
                a = unself(pb[0]["args"][0], sm)
                for k, g in given.items():
                    a = opened(a, "self." + k, "none" if g == "v0" else "some")
                a = calls_norm(a)
                if isinstance(a, list) and a[0] in ("rc", "ref"):
                    add({"C22", "C24"}, "post-build-arg", where, "post_build receives %s" % show(a)[:200])
                    continue
                fields_ok(a, vals, props, where + " [%s]" % sit, bool(sm.rc))
            else:
                fields_ok(v, vals, props, where + " [%s]" % sit, bool(sm.rc))
    return n
