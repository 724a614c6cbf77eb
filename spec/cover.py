"""Random samples (fixed seeds) of the whole argument space: every argument on the struct and on a field meets every other."""
import random
from model import S, F, SM
from specimens import unshareable

D1 = {"T1": "mk_t1()", "T2": "mk_t2()", "C1": "mk_c1()"}


def pick(r, *pairs):
    """Weighted choice: values, or (value, weight)."""
    vs = [p if isinstance(p, tuple) else (p, 1) for p in pairs]
    return r.choices([v for v, _ in vs], [w for _, w in vs])[0]


HELP = ["get_mut", "set", "clearer", "predicate", "reader", "writer"]


def helper_arg(r, k, f, struct=False):
    """One spelling of a helper argument; names are prefixes on the struct and exact names on a field."""
    subs = []
    if r.random() < .25:
        subs.append('"%s_"' % {"get": "gt", "get_mut": "gm", "set": "st", "clearer": "cl", "predicate": "pr", "reader": "rd", "writer": "wr", "lazy": "lz"}[k] if struct else '"%s_x_%s"' % (k, f))
    if r.random() < .2 and k != "lazy":
        subs.append(pick(r, "private", "public", "public(crate)", "public(super)"))
    if r.random() < .15 and k != "lazy":
        subs.append("attributes_fn(%s)" % pick(r, "must_use", "cold", "deprecated"))
    if k == "set" and r.random() < .3:
        subs.append("into")
    r.shuffle(subs)
    return k + ("(%s)" % ", ".join(subs) if subs else "")


def off_or(r, k, f, p_on, p_off, struct=False):
    x = r.random()
    if x < p_on:
        return helper_arg(r, k, f, struct)
    if x < p_on + p_off:
        return k + "(off)"
    return ""


def sample(r, i):
    mode = pick(r, "", "sync", "r#async", ("mode(sync)", .3), ("mode(async)", .3), ("mode(plain)", .2))
    plain = mode in ("", "mode(plain)")
    sargs = [mode] if mode else []
    b = pick(r, ("", 2), "builder", "builder(into)", "builder(required)", "builder(opt_in)", "builder(error(E1))", "builder(post_build)", 'builder("with_")', "builder(public(crate))", "builder(into, error(E1), post_build(done))", "builder(attributes_fn(cold))", "builder(required, opt_in)", 'builder("w_", private)')
    if b:
        sargs.append(b)
    rc = pick(r, ("", 3), "rc", 'rc("me")', "rc(public(crate))")
    if rc:
        sargs.append(rc)
    nn = pick(r, ("", 3), "no_new", "default", "no_new, default")
    if nn:
        sargs.append(nn)
    sv = pick(r, ("", 3), "public", "private", "public(crate)")
    if sv:
        sargs.append(sv)
    sget = pick(r, ("", 2), "get", "get(clone)", 'get("gt_")', "get(public(crate))", "get(attributes_fn(cold))", "get(off)")
    if sget:
        sargs.append(sget)
    scopy = pick(r, ("", 5), "clone", "clone(off)")
    if scopy:
        sargs.append(scopy)
    sst = pick(r, ("", 4), "lazy", 'lazy("lz_")', "optional", "inner_mut" if mode == "" else "lock", "lock(off)" if not plain else "")
    if sst:
        sargs.append(sst)
    if r.random() < .15:
        sargs.append("into")
    if "lazy" in sst and r.random() < .25 or r.random() < .1:
        sargs.append(pick(r, "fallible(error(E1))", "fallible(off, error(E2))"))
    for k in HELP:
        if k in ("reader", "writer") and plain:
            continue
        x = off_or(r, k, "", .15, .06, True)
        if x:
            sargs.append(x)
    r.shuffle(sargs)
    fields = []
    for n in range(r.choice((1, 2, 3, 3))):
        name = ["bar", "quux", "zed"][n]
        a = []
        st = pick(r, ("", 2), ("lazy", 2), "fallible", ("optional", 2), "inner_mut", "inner_opt", ("lock", 1.5), "off_opt", ("skip", .4), "off")
        if st == "lazy" or st == "fallible":
            a.append(helper_arg(r, "lazy", name))
        if st == "fallible":
            a.append(pick(r, "fallible(error(E1))", "fallible(error(E2))"))
        if st in ("optional", "inner_opt", "off_opt"):
            a.append("optional")
        if st in ("inner_mut", "inner_opt"):
            a.append("inner_mut")
        if st == "off_opt":
            a.append("lock(off)" if not plain else "inner_mut(off)")
        if st == "lock":
            a.append("lock" if not plain else "inner_mut")
        if st == "skip":
            a.append("skip")
        if st == "off":
            a.append(pick(r, "lazy(off)", "optional(off)", "inner_mut(off)"))
        g = pick(r, ("", 2), ("get", 2), "get(clone)", "get(copy)", "get(as_ref)", 'get("g_%s")' % name, "get(off)", 'get(clone, "gc_%s", public(super))' % name, "get(attributes_fn(must_use), copy)", "get(private)")
        if g:
            a.append(g)
        if r.random() < .2:
            a.append(pick(r, "clone", "copy", "clone(off)", "copy(off)"))
        for k in HELP:
            if k in ("reader", "writer") and plain:
                continue
            x = off_or(r, k, name, .4 if k not in ("reader", "writer") else .25, .05)
            if x:
                a.append(x)
        if r.random() < .15:
            a.append('rename("re_%s")' % name)
        if r.random() < .15:
            a.append(pick(r, "private", "public", "public(crate)", "public(super)"))
        if r.random() < .12:
            a.append("attributes_fn(%s)" % pick(r, "must_use", "cold"))
        if r.random() < .15:
            a.append(pick(r, "into", "into(off)"))
        if b:
            x = pick(r, ("", 4), "builder", "builder(required)", "builder(into)", 'builder("b_%s")' % name, "builder(attributes_fn(must_use))", ("builder(off)", 1 if "required" not in b else 0), "builder(required(off))", "builder(into(off))")
            if x:
                a.append(x)
        copy = any("copy" in x and "off" not in x for x in a)
        ty = "C1" if copy else pick(r, "T1", "T2", "C1")
        if r.random() < .4:
            a.append("default(%s)" % pick(r, (D1[ty], 2), "Self::dflt_%s()" % ty.lower()))
        r.shuffle(a)
        fields.append(F(name, ty, ", ".join(a), pick(r, ("", 3), "pub", "pub(crate)")))
    user = ["#[inline(never)] fn dflt_%s() -> %s { loop {} }" % (t.lower(), t) for t in ("T1", "T2", "C1")]
    res = "Result<Self, E1>" if "error(" in b else "Self"
    if "post_build(done)" in b:
        user.append("#[inline(never)] fn done(self) -> %s { loop {} }" % res)
    elif "post_build" in b:
        user.append("#[inline(never)] fn post_build(self) -> %s { loop {} }" % res)
    tags = {"cover", "helpers"} | ({"rc"} if rc else set()) | ({"ctor"} if b else set())
    return S(", ".join(sargs), fields, vis=pick(r, ("pub", 2), "", "pub(crate)"), user=user, tags=tags, note="sample %d" % i)


def legal(s):
    """Combinations the documentation allows."""
    sm = SM(s)
    sa = s.args
    if unshareable(s):
        return False
    for f, m in zip(s.fields, sm.fields):
        a = f.args
        given = lambda k: k in a and not a[k].off
        if "get" in a and a["get"].has("as_ref") and not m.optional:
            return False
        if not m.skip and m.get_mode == "as_ref" and not m.optional:
            return False
        if "lazy" in a and not a["lazy"].off and ("optional" in a or "inner_mut" in a):
            return False
        if "fallible" in a and ("lock" in a or "optional" in a or "inner_mut" in a):
            return False
        lk = a.get("lock") or sa.get("lock")
        if lk is not None and lk.off and not m.skip and ("reader" in m.helpers or "writer" in m.helpers):
            return False    # a guard helper without a lock
        o = a.get("optional") or sa.get("optional")
        if o is not None and o.off and not m.lazy and not m.skip and ("clearer" in m.helpers or "predicate" in m.helpers):
            return False    # a clearer of a field that must not be optional
        if "copy" in a and "clone" in a:
            return False
        if not m.skip and m.get_mode == "copy" and f.ty != "C1":
            return False
        if m.skip and m.f.ty == "C1" and False:
            return False
        # both a field-wide accessor mode and one inside get()
        if ("copy" in a or "clone" in a) and "get" in a and any(a["get"].sub(x) for x in ("copy", "clone", "as_ref")):
            return False
    if "lazy" in sa and ("optional" in sa or "inner_mut" in sa):
        return False
    # names must not clash
    names = [h.name for m in sm.fields for h in m.helpers.values()] + [m.lazy_fn for m in sm.fields if m.lazy_fn] + list(sm.rc_helpers)
    if len(names) != len(set(names)) or {"new", "builder", "post_build", "done"} & set(names):
        return False
    bn = [m.builder["name"] for m in sm.fields if m.builder and m.builder["on"]]
    return len(bn) == len(set(bn)) and "build" not in bn


def samples(n, seed=1):
    r = random.Random("fieldx-%d" % seed)
    out, i = [], 0
    while len(out) < n:
        i += 1
        s = sample(r, i)
        if legal(s):
            s.note = "sample %d/%d" % (seed, i)
            out.append(s)
    return out
