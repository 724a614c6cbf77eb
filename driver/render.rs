//! Canonical text and JSON trees of abstract values and of whole path outcomes.
use crate::{interp::*, json::*, models};
use rustc_abi::VariantIdx;
use rustc_middle::ty::{self, Ty};

fn arr(v: Vec<J>) -> J { J::A(v) }
fn tag(t: &str, v: J) -> J { J::A(vec![t.into(), v]) }
/// Wrappers that are invisible to a user of the value.
fn transparent<'tcx>(i: &I<'_, 'tcx>, t: Ty<'tcx>) -> bool { if let ty::Adt(a, _) = t.kind() { let p = i.path(a.did()); p.ends_with("::OnceCell") || p.ends_with("cell::UnsafeCell") || p.ends_with("ManuallyDrop") || p.ends_with("cell::Cell") || p == "core::pin::Pin" } else { false } }
fn ty_name<'tcx>(i: &I<'_, 'tcx>, t: Ty<'tcx>) -> String { match t.kind() { ty::Adt(a, _) => i.tcx.item_name(a.did()).to_string(), _ => crate::facts::tystr(t) } }
/// Name of a place, if it is rooted in something named.
pub fn place_name<'tcx>(i: &I<'_, 'tcx>, m: &M<'tcx>, p: &Pl) -> Option<String> {
    let mut n = m.meta[p.a].name.clone()?;
    let mut v = &m.mem[p.a];
    let mut ty: Option<(Ty<'tcx>, Option<u32>)> = None;
    for e in &p.p {
        match e {
            P::D(d) => { if let Some((_, x)) = &mut ty { *x = Some(*d); } else if let V::Agg(t, _, _) | V::Sym(_, t) = v { ty = Some((*t, Some(*d))); } }
            P::F(k) => {
                let (t, var) = match (ty.take(), v) { (Some(x), _) => x, (None, V::Agg(t, var, _)) => (*t, Some(*var)), (None, V::Sym(_, t)) => (*t, None), (None, V::Lock(l)) => { let _ = l; return Some(format!("{}.?", n)); } _ => return Some(format!("{}.?{}", n, k)) };
                let (cn, ct) = i.child(&n, t, var, *k);
                n = cn;
                v = match v { V::Agg(_, _, f) if f.get(*k as usize).is_some() => &f[*k as usize], _ => { ty = Some((ct, None)); v } };
            }
        }
    }
    Some(n.to_string())
}
fn sym_tree<'tcx>(m: &M<'tcx>, i: &I<'_, 'tcx>, n: &Name, t: Ty<'tcx>, d: u32) -> J {
    match m.refine.get(n) {
        Some(R::Var(v)) if t.is_enum() && d < 12 => {
            let ty::Adt(a, _) = t.kind() else { unreachable!() };
            let vd = a.variant(VariantIdx::from_u32(*v));
            let f = (0..vd.fields.len()).map(|k| { let (cn, ct) = i.child(n, t, Some(*v), k as u32); sym_tree(m, i, &cn, ct, d + 1) }).collect();
            arr(vec!["enum".into(), vd.name.to_string().into(), J::A(f)])
        }
        Some(R::Int(x)) => tag("int", J::N(*x as i128)),
        _ if t.is_unit() => tag("tup", arr(vec![])),
        _ => tag("sym", n.to_string().into()),
    }
}
pub fn tree<'tcx>(i: &I<'_, 'tcx>, m: &mut M<'tcx>, v: &V<'tcx>) -> J { let mut seen = vec![]; tree_d(i, m, v, 0, &mut seen) }
fn tree_d<'tcx>(i: &I<'_, 'tcx>, m: &mut M<'tcx>, v: &V<'tcx>, d: u32, seen: &mut Vec<usize>) -> J {
    if d > 14 { return tag("sym", "...".into()); }
    match v {
        V::Uninit => tag("sym", "moved".into()),
        V::Sym(n, t) => sym_tree(m, i, n, *t, d),
        V::Int(x) => tag("int", J::N(*x as i128)),
        V::Str(s) => tag("str", s.to_string().into()),
        V::IsSome(n) => match m.refine.get(n) { Some(R::Var(x)) => tag("int", J::N((*x == 1) as i128)), _ => tag("is_some", n.to_string().into()) },
        V::Agg(t, var, f) => {
            if f.len() == 1 && transparent(i, *t) { return tree_d(i, m, &f[0].clone(), d, seen); }
            if t.is_closure() { return tag("fn", eta(i, m, v)); }
            let f = f.clone();
            // an aggregate whose parts are exactly the parts of one opaque value is that value
            if let Some(n) = collapse(i, m, *t, *var, &f) { return n; }
            match t.kind() {
                ty::Adt(a, _) if a.is_enum() => { let n = a.variant(VariantIdx::from_u32(*var)).name.to_string(); let k = f.iter().map(|x| tree_d(i, m, x, d + 1, seen)).collect(); arr(vec!["enum".into(), n.into(), J::A(k)]) }
                ty::Adt(a, _) => { let names: Vec<String> = a.non_enum_variant().fields.iter().map(|f| f.name.to_string()).collect();
                    let mut o = vec![]; for (n, x) in names.into_iter().zip(f.iter()) { let y = tree_d(i, m, x, d + 1, seen); o.push((n, y)); }
                    arr(vec!["struct".into(), ty_name(i, *t).into(), J::O(o)]) }
                _ => { let k = f.iter().map(|x| tree_d(i, m, x, d + 1, seen)).collect(); tag("tup", J::A(k)) }
            }
        }
        V::Ptr(p) => {
            let n = place_name(i, m, p).map_or(J::Null, J::S);
            if seen.contains(&p.a) && d > 3 { return arr(vec!["ref".into(), n, J::Null]); }
            seen.push(p.a);
            let c = i.get(m, p).ok();
            let c = match c { Some(c) => tree_d(i, m, &c, d + 1, seen), None => match &n { J::S(s) => tag("sym", s.clone().into()), _ => J::Null } };
            seen.pop();
            arr(vec!["ref".into(), n, c])
        }
        V::Boxed(a) => { if seen.contains(a) { return tag("box", J::Null); } seen.push(*a); let x = m.mem[*a].clone(); let c = if matches!(&x, V::Agg(t, ..) if t.is_closure()) || matches!(&x, V::Fn(..)) { tag("fn", eta(i, m, &x)) } else { tree_d(i, m, &x, d + 1, seen) }; seen.pop(); tag("box", c) }
        V::RcP(a) => { if seen.contains(a) { return tag("rc", "^".into()); } seen.push(*a); let x = m.mem[*a].clone(); let c = tree_d(i, m, &x, d + 1, seen); seen.pop(); tag("rc", c) }
        V::WeakP(a) => { if seen.contains(a) { tag("weak", "^".into()) } else { tag("weak", format!("a{}", a).into()) } }
        V::Fn(..) => tag("fn", eta(i, m, v)),
        V::Lock(l) => {
            let (n, c, a, sh) = { let k = &m.locks[*l]; (k.name.to_string(), k.content, k.atom, k.shared) };
            let x = m.mem[c].clone(); let c = tree_d(i, m, &x, d + 1, seen);
            let inv = models::agrees(m, *l);
            let _ = a;
            tag("lock", obj(vec![("name", n.into()), ("content", c), ("shared", sh.into()), ("agrees", inv.map_or(J::Null, J::B))]))
        }
        V::Atom(a) => { let x = m.atoms[*a].val.clone(); let y = tree_d(i, m, &x, d + 1, seen); tag("atom", y) }
        V::Guard(g) => {
            let gd = m.guards[*g].clone(); let l = m.locks[gd.lock].name.to_string();
            let t = tree_d(i, m, &V::Ptr(gd.target.clone()), d + 1, seen);
            tag("guard", obj(vec![("lock", l.into()), ("mode", gd.mode.s().into()), ("kind", match m.locks[gd.lock].kind { LK::RefCell => "refcell", LK::Pl => "pl", LK::Tokio => "tokio" }.into()), ("live", gd.live.into()), ("target", t)]))
        }
        V::Leaf(l) => { let x = m.leafs[*l].clone(); tag("leaf", format!("{} {}", x.mode.s(), m.locks[x.lock].name).into()) }
        V::Coro(c) => tag("fut", eta(i, m, &V::Coro(*c))),
    }
}
fn collapse<'tcx>(i: &I<'_, 'tcx>, m: &M<'tcx>, t: Ty<'tcx>, var: u32, f: &[V<'tcx>]) -> Option<J> {
    if f.is_empty() || !matches!(t.kind(), ty::Adt(..) | ty::Tuple(_)) { return None; }
    if t.is_enum() { return None; }
    let first = match &f[0] { V::Sym(n, _) => n.to_string(), V::Lock(l) => m.locks[*l].name.to_string(), V::Atom(a) => m.atoms[*a].name.to_string(), V::Agg(..) => return None, _ => return None };
    let (probe, _) = i.child("\u{1}", t, Some(var), 0);
    let suf = probe.strip_prefix('\u{1}')?.to_string();
    let base = first.strip_suffix(&suf)?.to_string();
    for (k, x) in f.iter().enumerate() { let (cn, _) = i.child(&base, t, Some(var), k as u32); match x { V::Sym(n, _) if *n == cn => {} _ => return None } }
    Some(tag("sym", base.into()))
}
/// Behaviour of a callable on an opaque argument `$0`: the set of its outcomes.
fn eta<'tcx>(i: &I<'_, 'tcx>, m: &mut M<'tcx>, v: &V<'tcx>) -> J {
    let mut m2 = m.clone();
    m2.frames.clear(); m2.events.clear(); m2.driven = false; m2.cancelling = false; m2.roots.clear(); m2.refine.clear();
    m2.fresh.retain(|k, _| !k.starts_with("call "));
    let tcx = i.tcx;
    let started = (|| -> Res<Option<J>> {
        match v {
            V::Fn(d, a) => {
                let inst = i.resolve(*d, a);
                let (d2, a2) = match &inst { Some(x) => match i.inst_item(x) { Some(d2) => (d2, x.args), None => return Ok(Some(i.path(*d).into())) }, None => return Ok(Some(i.path(*d).into())) };
                let n = tcx.opt_item_name(d2).map_or(i.path(d2), |n| n.to_string());
                let sig = tcx.fn_sig(d2).skip_binder(); let ins = sig.inputs().skip_binder();
                if i.is_user_fn(d2) || !d2.is_local() { let a: Vec<String> = (0..ins.len()).map(|k| format!("${}", k)).collect(); return Ok(Some(format!("{}#1({})", n, a.join(",")).into())); }
                let mut av = vec![]; for (k, t) in ins.iter().enumerate() { let t = i.norm(a2, *t); av.push(root_arg(i, &mut m2, &format!("${}", k).into(), tcx.erase_and_anonymize_regions(t))); }
                i.call_body(&mut m2, d2, a2, av, Cont::None)?; Ok(None)
            }
            V::Agg(t, _, _) => {
                let ty::Closure(d, a) = t.kind() else { return bad("eta") };
                let sig = a.as_closure().sig(); let sig = tcx.liberate_late_bound_regions(*d, sig);
                let ty::Tuple(ins) = sig.inputs()[0].kind() else { return bad("eta sig") };
                let ar = m2.frames.first().map(|f| f.args); let _ = ar;
                let mut av = vec![]; for (k, t) in ins.iter().enumerate() { let t = tcx.erase_and_anonymize_regions(t); av.push(root_arg(i, &mut m2, &format!("${}", k).into(), t)); }
                let me = if a.as_closure().kind() == ty::ClosureKind::FnOnce { v.clone() } else { let al = i.alloc(&mut m2, v.clone(), None, false); V::Ptr(Pl::root(al)) };
                av.insert(0, me);
                i.call_body(&mut m2, *d, a, av, Cont::None)?; Ok(None)
            }
            V::Coro(c) => { if !matches!(m2.coros[*c].st, CS::New) { return bad("eta coro"); } m2.driven = true; i.start_coro(&mut m2, *c, Cont::RootCoro)?; Ok(None) }
            _ => bad("eta of non-callable"),
        }
    })();
    match started { Ok(Some(j)) => return j, Err(_) => return "?".into(), Ok(None) => {} }
    if m.steps > 50000 || m.notes.len() > 4 { return "?".into(); }
    m2.notes.push("eta".into());
    let mut outs: Vec<J> = vec![];
    explore(i, m2, 60, &mut |mut mm, e| {
        let s = match e { Exit::Return(v, _) => format!("{}", short(i, &mut mm, &v)), _ => return };
        let calls: Vec<String> = mm.events.iter().filter_map(|e| if let J::O(o) = e { let is = o.iter().any(|(k, v)| k == "e" && *v == J::S("call".into())); if is { o.iter().find(|(k, _)| k == "f").map(|(_, v)| v.text()) } else { None } } else { None }).collect();
        let j: J = format!("{} via {}", s, calls.join(";")).into();
        if !outs.contains(&j) { outs.push(j); }
    });
    if outs.len() == 1 { outs.pop().unwrap() } else { J::A(outs) }
}
pub fn txt(j: &J) -> String {
    match j {
        J::A(v) => {
            let t = match v.first() { Some(J::S(s)) => s.as_str(), _ => "" };
            match (t, v.len()) {
                ("sym", 2) => s_of(&v[1]),
                ("int", 2) => v[1].text(),
                ("str", 2) => v[1].text(),
                ("is_some", 2) => format!("is_some({})", s_of(&v[1])),
                ("enum", 3) => { let k = list(&v[2]); if k.is_empty() { s_of(&v[1]) } else { format!("{}({})", s_of(&v[1]), k) } }
                ("struct", 3) => if let J::O(o) = &v[2] { format!("{}{{{}}}", s_of(&v[1]), o.iter().map(|(k, v)| format!("{}:{}", k, txt(v))).collect::<Vec<_>>().join(",")) } else { "?".into() },
                ("tup", 2) => format!("({})", list(&v[1])),
                ("ref", 3) => match &v[1] { J::S(s) => format!("&{}", s), _ => format!("&<{}>", txt(&v[2])) },
                ("box", 2) => txt(&v[1]),
                ("rc", 2) => format!("rc({})", txt(&v[1])),
                ("weak", 2) => format!("weak({})", s_of(&v[1])),
                ("fn", 2) => format!("fn[{}]", match &v[1] { J::S(s) => s.clone(), o => o.text() }),
                ("fut", 2) => format!("fut[{}]", match &v[1] { J::S(s) => s.clone(), o => o.text() }),
                ("atom", 2) => format!("flag({})", txt(&v[1])),
                ("leaf", 2) => format!("acquire({})", s_of(&v[1])),
                ("lock", 2) => if let J::O(o) = &v[1] { format!("lock({})", txt(&o.iter().find(|x| x.0 == "content").unwrap().1)) } else { "?".into() },
                ("guard", 2) => if let J::O(o) = &v[1] { let g = |n: &str| o.iter().find(|x| x.0 == n).map(|x| x.1.clone()).unwrap_or(J::Null); format!("guard({} {} {})", s_of(&g("mode")), s_of(&g("lock")), txt(&g("target"))) } else { "?".into() },
                _ => j.text(),
            }
        }
        J::S(s) => s.clone(),
        _ => j.text(),
    }
}
fn s_of(j: &J) -> String { if let J::S(s) = j { s.clone() } else { j.text() } }
fn list(j: &J) -> String { if let J::A(v) = j { v.iter().map(txt).collect::<Vec<_>>().join(",") } else { String::new() } }
pub fn short<'tcx>(i: &I<'_, 'tcx>, m: &mut M<'tcx>, v: &V<'tcx>) -> String { capped(txt(&tree(i, m, v))) }
/// Names of values that went through many calls stay bounded: the tail is replaced by its hash.
pub fn capped(s: String) -> String {
    if s.len() <= 4000 { return s; }
    let h = s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    let mut k = 60; while !s.is_char_boundary(k) { k -= 1; }
    format!("{}~{:016x}", &s[..k], h)
}
/// Text of an argument as a value: references are shown by what they refer to.
pub fn value_text<'tcx>(i: &I<'_, 'tcx>, m: &mut M<'tcx>, v: &V<'tcx>) -> String {
    match v { V::Ptr(p) => match i.get(m, p).ok() { Some(x) => value_text(i, m, &x), None => short(i, m, v) }, V::Guard(g) => { let t = m.guards[*g].target.clone(); value_text(i, m, &V::Ptr(t)) } V::Sym(n, t) if t.is_ref() => m.objs.get(n).copied().map_or(n.to_string(), |a| { let x = m.mem[a].clone(); value_text(i, m, &x) }), _ => short(i, m, v) }
}
/// Does `v` still equal the opaque value called `name`?
pub fn diff_one<'tcx>(i: &I<'_, 'tcx>, m: &mut M<'tcx>, name: &Name, v: &V<'tcx>) -> bool { let mut out = vec![]; diff(i, m, name, v, &mut out); out.is_empty() }
fn diff<'tcx>(i: &I<'_, 'tcx>, m: &mut M<'tcx>, name: &Name, v: &V<'tcx>, out: &mut Vec<(String, J)>) {
    match v {
        V::Sym(n, _) if n == name => {}
        V::Lock(l) if m.locks[*l].name == *name => {}
        V::Atom(a) if m.atoms[*a].name == *name => { if m.atoms[*a].lock.is_none() { let x = m.atoms[*a].val.clone(); if !matches!(&x, V::Sym(n, _) if n.starts_with(&**name) || n.starts_with("flag(")) { let t = tree(i, m, &x); out.push((name.to_string(), t)); } } }
        V::Agg(t, var, f) if t.is_enum() => {
            if m.refine.get(name) != Some(&R::Var(*var)) { let x = tree(i, m, v); out.push((name.to_string(), x)); return; }
            for (k, x) in f.clone().iter().enumerate() { let (cn, _) = i.child(name, *t, Some(*var), k as u32); diff(i, m, &cn, x, out); }
        }
        V::Agg(t, var, f) if matches!(t.kind(), ty::Adt(..) | ty::Tuple(_)) => for (k, x) in f.clone().iter().enumerate() { let (cn, _) = i.child(name, *t, Some(*var), k as u32); diff(i, m, &cn, x, out); },
        V::Ptr(p) if m.objs.get(name).is_some_and(|a| *a == p.a) && p.p.is_empty() => {}
        _ => { let x = tree(i, m, v); out.push((name.to_string(), x)); }
    }
}
pub fn outcome<'tcx>(i: &I<'_, 'tcx>, m: &mut M<'tcx>, e: Exit<'tcx>) -> J {
    let (exit, ret): (&str, J) = match &e {
        Exit::Return(v, _) => ("return", tree(i, m, v)), Exit::Panic => ("panic", J::Null), Exit::Cancel => ("cancel", J::Null), Exit::Deadlock => ("deadlock", J::Null),
        Exit::Dead => ("dead", J::Null), Exit::Bad(s) => ("bad", s.as_str().into()),
    };
    let mut ch = vec![];
    for a in 0..m.mem.len() {
        let Some(n) = m.meta[a].name.clone() else { continue };
        let v = m.mem[a].clone();
        if let Some(l) = (0..m.locks.len()).find(|l| m.locks[*l].content == a) {
            if n.starts_with("new") { continue; }
            let base: Name = format!("{}@{}", m.locks[l].name, m.locks[l].k).into();
            if m.locks[l].shared || !matches!(v, V::Uninit) { if !diff_one(i, m, &base, &v) { let t = tree(i, m, &v); ch.push((n.to_string(), t)); } }
            continue;
        }
        diff(i, m, &n, &v, &mut ch);
    }
    let mut broken = vec![];
    for l in 0..m.locks.len() { if !m.locks[l].wr && models::agrees(m, l) == Some(false) { broken.push(J::S(m.locks[l].name.to_string())); } }
    let cond = m.refine.iter().map(|(n, r)| (n.to_string(), match r { R::Var(v) => J::S(format!("v{}", v)), R::Int(x) => J::N(*x as i128), R::NotInt(_) => "other".into() })).collect();
    let drv = m.driven;
    obj(vec![("exit", exit.into()), ("ret", ret), ("cond", J::O(cond)), ("changes", J::O(ch)), ("held", models::held(m)), ("flag_differs", J::A(broken)), ("driven", drv.into()), ("events", J::A(std::mem::take(&mut m.events)))])
}
