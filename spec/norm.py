"""Canonical per-field outcomes: what one run of a helper does to *its* field, independent of how the code is written."""
import json, re


# names of the private fields that hold the value lock, per container (read off the current tree's types)
SHAPES = {}


def learn_shapes(structs):
    for s in structs:
        for mode in ("sync", "async"):
            c = mode.capitalize()
            for kind, name in (("lazy", "FXProxy" + c), ("lock", "FXRwLock" + c)):
                if s["name"] == name and "specs" not in s["path"]:
                    l = [f["name"] for f in s["fields"] if "RwLock" in f["ty"] and (kind == "lock" or re.search(r"Value|Option<V>", f["ty"]))]
                    if len(l) == 1:
                        SHAPES[mode, kind] = l[0]


class Names:
    """Names of the places that make up one field's storage."""

    def __init__(self, fm, self_name="self", rc=None, root=None):
        f = fm.name
        self.f, self.fm, self.root = f, fm, root or "%s.%s" % (self_name, f)
        self.lock = None
        if fm.mode != "plain":
            if fm.storage == "lazy":
                self.lock = self.root + "." + SHAPES.get((fm.mode, "lazy"), "value")
            elif fm.storage == "lock":
                self.lock = self.root + "." + SHAPES.get((fm.mode, "lock"), "0")
        elif fm.storage == "inner":
            self.lock = self.root
        self.is_opt = fm.lazy or fm.optional
        lf = re.escape(fm.lazy_fn) if fm.lazy_fn else "build"
        s = re.escape(self_name)
        r = re.escape(self.root)
        way = r"%s(?:\.\w+(?:@\d+)?(?:@Some\.0)?)+" % r      # however deep the container keeps its builder
        callee = r"(?:\(\*%s\)|%s|(?<!\w)%s)" % (way, way, lf)
        self.re_callee = re.compile("^" + callee + "$")
        arg = r"&?(?:[^()]|\((?:[^()]|\([^()]*\))*\))*"
        self.re_built = re.compile(r"await\(%s#(\d+)\((%s)\)\)|%s#(\d+)\((%s)\)" % (callee, arg, callee, arg))
        if self.lock:
            self.re_content = re.compile(re.escape(self.lock) + r"@(\d+)(?!\d)")
            self.re_place = re.compile(r"^" + re.escape(self.lock) + r"'+")
        else:
            self.re_content = re.compile(re.escape(self.root) + r"(?![\w.])'*")
            self.re_place = re.compile(r"^" + re.escape(self.root) + r"'*(?![\w.])")
        # what "the object itself" looks like as a builder's argument
        self.selfs = ("&" + self_name, "&(*%s)" % self_name)
        if rc:
            self.selfs = ("&(*upgrade(%s.%s)@Some.0)" % (self_name, rc),)
        self.re_flag = re.compile(r"^flag\(" + re.escape(self.root) + r"\.\w+\)#\d+$")


class Out:
    """One outcome of one helper, for one assumption about what the field held before."""
    __slots__ = ("exit", "pre", "ret", "post", "raw", "extra", "guards")

    def key(self):
        return (self.exit, self.pre, json.dumps(self.ret), json.dumps(self.post))

    def __repr__(self):
        return "[%s] %s ret=%s post=%s%s" % (self.pre, self.exit, show(self.ret), show(self.post), " extra=%s" % self.extra if self.extra else "")


def show(t):
    if t is None:
        return "-"
    if isinstance(t, str):
        return t
    k = t[0]
    if k in ("sym",):
        return t[1]
    if k == "int":
        return str(t[1])
    if k == "enum":
        return t[1] + ("(" + ",".join(show(x) for x in t[2]) + ")" if t[2] else "")
    if k == "ref":
        return "&%s{%s}" % (t[1], show(t[2]))
    if k == "guard":
        g = t[1]
        return "%s-guard<%s>[%s]%s" % (g["mode"], g["lock"], show(g["target"]), "" if g["live"] else " DEAD")
    if k == "struct":
        return "%s{%s}" % (t[1], ",".join("%s:%s" % (a, show(b)) for a, b in t[2].items()))
    if k == "lock":
        return "Lock[%s]" % show(t[1]["content"])
    if k == "tup":
        return "(" + ",".join(show(x) for x in t[1]) + ")"
    return json.dumps(t)


def last_k(n, o):
    ks = [0]
    for e in o["events"]:
        if e["e"] in ("acq", "wrote", "mode"):
            pass
    if n.lock:
        s = json.dumps([o["ret"], o["cond"], o["changes"], o["events"]])
        ks += [int(x) for x in re.findall(re.escape(n.lock) + r"@(\d+)", s)]
        ks += [sum(1 for e in o["events"] if e["e"] == "acq" and e.get("lock") == n.lock)]
    return max(ks)


def canon(n, o):
    """Outcomes of `o` for each assumption about the field's previous content that is consistent with the path."""
    k = last_k(n, o)
    pre = None
    if n.is_opt:
        for c, v in o["cond"].items():
            m = n.re_content.fullmatch(c)
            if m and (not n.lock or int(m.group(1)) == k):
                pre = {"v0": "none", "v1": "some"}.get(v)
    pres = [pre] if pre else (["none", "some"] if n.is_opt else ["any"])
    res = []
    for p in pres:
        x = Out()
        x.exit, x.pre, x.raw = o["exit"], p, o
        x.guards = []
        x.ret = tree(n, o["ret"], k, p, x) if o["exit"] == "return" else None
        x.post = content(n, p)
        x.extra = {}
        for place, t in o["changes"].items():
            m = n.re_place.match(place)
            if m and place[m.end():] == "":
                x.post = tree(n, t, k, p, x)
            elif m:
                # part of the payload changed in place
                x.post = ["part", place[m.end():], tree(n, t, k, p, x)]
            else:
                x.extra[place] = t
        res.append(x)
    return res


def content(n, p):
    if not n.is_opt:
        return ["sym", "P"]
    return ["enum", "None", []] if p == "none" else ["enum", "Some", [["sym", "P"]]]


def tree(n, t, k, p, x):
    if t is None:
        return None
    if isinstance(t, str):
        return sym(n, t, k, p)
    h = t[0]
    if h == "sym":
        r = sym(n, t[1], k, p)
        return r
    if h == "is_some":
        r = sym(n, t[1], k, p)
        if isinstance(r, list) and r[0] == "enum":
            return ["int", 1 if r[1] == "Some" else 0]
        return ["is_some", r]
    if h in ("int", "str"):
        return t
    if h == "enum":
        return ["enum", t[1], [tree(n, y, k, p, x) for y in t[2]]]
    if h == "struct":
        return ["struct", t[1], {a: tree(n, b, k, p, x) for a, b in t[2].items()}]
    if h == "tup":
        return ["tup", [tree(n, y, k, p, x) for y in t[1]]]
    if h == "ref":
        pl = t[1]
        if pl is not None:
            m = n.re_place.match(pl)
            if m:
                pl = "CELL" + pl[m.end():]
        c = tree(n, t[2], k, p, x) if t[2] is not None else None
        return ["ref", pl, c]
    if h in ("box", "rc", "atom"):
        return [h, tree(n, t[1], k, p, x) if isinstance(t[1], list) else t[1]]
    if h == "guard":
        g = dict(t[1])
        g["target"] = tree(n, g["target"], k, p, x)
        g["lock"] = "LOCK" if g["lock"] == n.lock else g["lock"]
        return ["guard", g]
    if h == "lock":
        g = dict(t[1])
        g["content"] = tree(n, g["content"], k, p, x)
        return ["lock", g]
    return t


def sym(n, s, k, p):
    if n.re_flag.match(s):
        return ["int", 1 if p == "some" else 0]
    s = n.re_built.sub(lambda m: "BUILT" + ("" if (m.group(1) or m.group(3)) == "1" else "#" + (m.group(1) or m.group(3))) + ("" if (m.group(2) or m.group(4)) in n.selfs else "[%s]" % (m.group(2) or m.group(4))), s)
    if n.lock:
        s = n.re_content.sub(lambda m: "C" if int(m.group(1)) == k else "STALE%s" % m.group(1), s)
    else:
        s = n.re_content.sub("C", s)
    if n.is_opt:
        s = s.replace("C@Some.0", "P") if "STALE" not in s else s
        if s == "C":
            return content(n, p)
    else:
        s = re.sub(r"\bC\b", "P", s)
    s = re.sub(r"\barg2\b", "ARG", s)
    return ["sym", s]
