"""The declarations of other families over a type that implements nothing: what a helper does not need of its field's
type it must not ask for."""
import re
from model import S, F, SM
import cover, serde_specs
from serde_specs import CLONE


def bare(s, serde=False):
    """A variant of `s` with T1 replaced wherever the declaration needs no trait of it; None if nowhere."""
    if s.generics or s.harness or (s.derives and not serde) or (s.extra and s.extra.strip() != CLONE.strip()) or "generic" in s.tags or "Self" in " ".join(s.user):
        return None
    try:
        sm = SM(s)
    except Exception:
        return None
    fields, n = [], 0
    for fm in sm.fields:
        f = fm.f
        sa = f.args.get("serde")
        started = fm.lazy or fm.optional or fm.default is not None
        ok = f.ty == "T1" and not fm.skip and fm.get_mode not in ("copy", "clone", "as_ref")
        # Default comes along with lazy fields of shared structs
        ok = ok and (started or (sm.want_default is None and sm.mode == "plain" and not sm.has_builder and not serde))
        ok = ok and "Self::dflt()" not in f.text and not ("default" in f.args and not f.args["default"].subs)
        # serde's own defaults
        ok = ok and not (serde and (sa is not None and (sa.off or sa.sub("default") or sa.sub("deserialize") or sa.sub("serialize")) or s.args["serde"].sub("deserialize") or s.args["serde"].sub("serialize")))
        if ok:
            n += 1
            fields.append(F(f.name, "ND", re.sub(r"\bmk_t1\(\)", "mk_nd()", re.sub(r"Self::dflt_t1\(\)", "mk_nd()", f.text)), f.vis, attrs=f.attrs))
        else:
            fields.append(F(f.name, f.ty, f.text, f.vis, attrs=f.attrs))
    if not n:
        return None
    return S(s.text, fields, vis=s.vis, derives="", tags=s.tags | {"bare"}, note=s.note + " bare", user=s.user, attrs=s.attrs, extra=CLONE if serde else "")


def fixed():
    from specimens import helper_specs, struct_level_specs, ctor_specs, mode_specs, forms_specs
    out = [bare(s) for s in helper_specs() + struct_level_specs() + ctor_specs() + mode_specs() + forms_specs()]
    out += [bare(s, True) for s in serde_specs.fixed() if SM(s).s.args.get("serde") is not None]
    return [x for x in out if x is not None]
