//! Transfer functions for library primitives the analysed code rests on: locks and their guards, status flags, cells,
//! boxes and shared pointers, futures, closures, panics and opaque (user-supplied) functions.
use crate::{interp::*, json::*, render};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, GenericArgsRef, InstanceKind, Ty};

pub fn lock_kind(p: &str) -> Option<LK> {
    if p.ends_with("::RwLock") || p.ends_with("::Mutex") { if p.starts_with("lock_api") || p.starts_with("parking_lot") { return Some(LK::Pl); } if p.starts_with("tokio") { return Some(LK::Tokio); } if p.starts_with("std::sync") { return Some(LK::Pl); } }
    if p == "core::cell::RefCell" { return Some(LK::RefCell); }
    None
}
pub fn held(m: &M<'_>) -> J { J::A(m.guards.iter().filter(|g| g.live && m.locks[g.lock].kind != LK::RefCell).map(|g| J::S(format!("{}:{}", m.locks[g.lock].name, g.mode.s()))).collect()) }

type It<'a, 'tcx> = I<'a, 'tcx>;
fn ev(m: &mut M<'_>, v: Vec<(&str, J)>) { m.events.push(obj(v)); }
fn ptr<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, v: &V<'tcx>) -> Res<Pl> { match i.deref_val(m, v, true)? { Some(p) => Ok(p), None => bad(format!("not a pointer: {:?}", v)) } }
/// Value behind a reference, looking through further references.
fn behind<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, v: &V<'tcx>) -> Res<(Pl, V<'tcx>)> {
    let mut p = ptr(i, m, v)?;
    for _ in 0..6 { let x = i.get(m, &p)?; match &x { V::Ptr(q) => p = q.clone(), V::Sym(_, t) if t.is_ref() => p = ptr(i, m, &x)?, _ => return Ok((p, x)) } }
    bad("pointer chain")
}
fn mk_lock<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, name: Name, kind: LK, content: V<'tcx>, cty: Ty<'tcx>, shared: bool) -> usize {
    let c = i.alloc(m, content, Some(format!("{}'", name).into()), false);
    m.locks.push(Lock { name, kind, content: c, cty, shared, readers: 0, up: false, wr: false, k: 0, atom: None, touched: false });
    m.locks.len() - 1
}
fn raw_lock<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, pl: &Pl) -> Res<Option<usize>> {
    Ok(Some(match i.get(m, pl)? {
        V::Lock(l) => l,
        V::Sym(n, t) => {
            let ty::Adt(a, args) = t.kind() else { return Ok(None) };
            let Some(k) = lock_kind(&i.path(a.did())) else { return Ok(None) };
            let cty = args.types().last().unwrap();
            let sh = i.shared_of(m, pl);
            let l = mk_lock(i, m, n.clone(), k, V::Sym(format!("{}@0", n).into(), cty), cty, sh);
            i.put(m, pl, V::Lock(l))?; l
        }
        _ => return Ok(None),
    }))
}
fn raw_atom<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, pl: &Pl) -> Res<Option<usize>> {
    Ok(Some(match i.get(m, pl)? {
        V::Atom(a) => a,
        V::Sym(n, t) => {
            let sh = i.shared_of(m, pl);
            m.atoms.push(Atom { name: n.clone(), val: V::Sym(n, i.tcx.types.bool), shared: sh, lock: None, k: 0, ty: t });
            let a = m.atoms.len() - 1; i.put(m, pl, V::Atom(a))?; a
        }
        _ => return Ok(None),
    }))
}
fn link<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, pl: &Pl) -> Res<()> {
    let Some(P::F(_)) = pl.p.last() else { return Ok(()) };
    let mut par = pl.clone(); par.p.pop();
    let Some(V::Agg(t, _, _)) = i.walk(m, &par) else { return Ok(()) };
    let Some((li, ai)) = i.proxy_shape(*t) else { return Ok(()) };
    let (Some(l), Some(a)) = (raw_lock(i, m, &par.f(li))?, raw_atom(i, m, &par.f(ai))?) else { return Ok(()) };
    if m.locks[l].atom.is_none() && m.atoms[a].lock.is_none() {
        m.locks[l].atom = Some(a); m.atoms[a].lock = Some(l);
        // status flag and content agree in every state handed to us: that invariant is re-established by every releaser
        m.atoms[a].val = V::IsSome(format!("{}@0", m.locks[l].name).into());
    }
    Ok(())
}
fn lock_at<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, v: &V<'tcx>) -> Res<usize> {
    let (pl, x) = behind(i, m, v)?;
    match raw_lock(i, m, &pl)? { Some(l) => { link(i, m, &pl)?; Ok(l) } None => bad(format!("not a lock: {:?}", x)) }
}
fn atom_at<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, v: &V<'tcx>) -> Res<usize> {
    let (pl, x) = behind(i, m, v)?;
    match raw_atom(i, m, &pl)? { Some(l) => { link(i, m, &pl)?; Ok(l) } None => bad(format!("not an atomic: {:?}", x)) }
}
fn guard_of<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, v: &V<'tcx>) -> Res<usize> {
    match v { V::Guard(g) => Ok(*g), _ => { let (_, x) = behind(i, m, v)?; if let V::Guard(g) = x { Ok(g) } else { bad(format!("not a guard: {:?}", x)) } } }
}
/// `Some(true)`: flag and content agree, `Some(false)`: they differ, judged on the path facts collected so far.
pub fn agrees<'tcx>(m: &M<'tcx>, l: usize) -> Option<bool> {
    let a = m.locks[l].atom?;
    let c = &m.mem[m.locks[l].content];
    let look = |n: &Name| match m.refine.get(n) { Some(R::Var(v)) => Ok(*v == 1), _ => Err(n.clone()) };
    let some = match c { V::Agg(_, v, _) => Ok(*v == 1), V::Sym(n, _) => look(n), V::Uninit => return None, _ => return Some(false) };
    let flag = match &m.atoms[a].val { V::Int(x) => Ok(*x != 0), V::IsSome(n) => look(n), V::Sym(n, _) => match m.refine.get(n) { Some(R::Int(x)) => Ok(*x != 0), _ => Err(n.clone()) }, _ => return Some(false) };
    Some(some == flag)
}
fn written<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, l: usize) {
    let c = m.mem[m.locks[l].content].clone();
    let nm = m.locks[l].name.to_string();
    let pre = format!("{}@{}", nm, m.locks[l].k);
    let t = render::tree(i, m, &c);
    let same = render::diff_one(i, m, &pre.clone().into(), &c);
    if agrees(m, l) == Some(false) { ev(m, vec![("e", "flag_differs".into()), ("lock", nm.clone().into()), ("content", t.clone())]); }
    if !same { ev(m, vec![("e", "wrote".into()), ("lock", nm.into()), ("pre", pre.into()), ("post", t)]); }
}
pub fn release<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, g: usize) -> Res<()> {
    if !m.guards[g].live { return Ok(()); }
    let (l, mode) = (m.guards[g].lock, m.guards[g].mode);
    if mode == Mode::Write && m.locks[l].kind != LK::RefCell { written(i, m, l); }
    m.guards[g].live = false;
    let k = &mut m.locks[l];
    match mode { Mode::Read => k.readers = k.readers.saturating_sub(1), Mode::Up => k.up = false, Mode::Write => k.wr = false }
    if k.kind != LK::RefCell { let n = k.name.to_string(); ev(m, vec![("e", "rel".into()), ("lock", n.into()), ("mode", mode.s().into())]); }
    Ok(())
}
fn deadlock<'tcx>(m: &mut M<'tcx>, l: usize, mode: Mode) -> Res<()> {
    let n = m.locks[l].name.to_string(); let h = held(m);
    ev(m, vec![("e", "deadlock".into()), ("lock", n.into()), ("mode", mode.s().into()), ("held", h)]);
    Err(Stop::Dead)
}
fn borrowed<'tcx>(m: &mut M<'tcx>, l: usize) {
    let n = m.locks[l].name.to_string();
    ev(m, vec![("e", "borrow".into()), ("lock", n.into()), ("mode", "write".into())]);
}
/// Acquire; Ok(None) = the acquisition can never succeed on this path (already recorded).
fn acquire<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, l: usize, mode: Mode, how: &str) -> Res<Option<usize>> {
    let k = &m.locks[l];
    let conflict = k.wr || (mode == Mode::Write && (k.readers > 0 || k.up)) || (mode == Mode::Up && k.up);
    if conflict { let _ = deadlock(m, l, mode); return Ok(None); }
    let free = !k.wr && k.readers == 0 && !k.up;
    if k.kind != LK::RefCell {
        let n = k.name.to_string(); let h = held(m);
        ev(m, vec![("e", "acq".into()), ("lock", n.into()), ("mode", mode.s().into()), ("how", how.into()), ("held", h)]);
        if !free && !(how == "read_recursive" && mode == Mode::Read) { let n = m.locks[l].name.to_string(); ev(m, vec![("e", "recursive".into()), ("lock", n.into()), ("mode", mode.s().into())]); }
    }
    if m.locks[l].kind == LK::RefCell && mode == Mode::Write { borrowed(m, l); }
    if free && m.locks[l].shared && m.locks[l].kind != LK::RefCell {
        m.locks[l].k += 1;
        let n: Name = format!("{}@{}", m.locks[l].name, m.locks[l].k).into();
        let (c, t) = (m.locks[l].content, m.locks[l].cty);
        m.mem[c] = V::Sym(n.clone(), t);
        if let Some(a) = m.locks[l].atom { m.atoms[a].val = V::IsSome(n); }
    }
    let k = &mut m.locks[l]; k.touched = true;
    match mode { Mode::Read => k.readers += 1, Mode::Up => k.up = true, Mode::Write => k.wr = true }
    let target = Pl::root(k.content);
    let _ = i;
    m.guards.push(Guard { lock: l, mode, target, live: true });
    Ok(Some(m.guards.len() - 1))
}
fn acq_or_exit<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, l: usize, mode: Mode, how: &str) -> Res<Result<usize, Flow<'tcx>>> {
    Ok(match acquire(i, m, l, mode, how)? { Some(g) => Ok(g), None if m.locks[l].kind == LK::RefCell => Err(i.panic(m, "RefCell already borrowed", vec![])?), None => Err(Flow::Exit(Exit::Deadlock)) })
}
fn change_mode<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, g: usize, to: Mode) -> Res<bool> {
    let (l, from) = (m.guards[g].lock, m.guards[g].mode);
    if to == Mode::Write && m.locks[l].readers > 0 { let _ = deadlock(m, l, to); return Ok(false); }
    if from == Mode::Write && to != Mode::Write { written(i, m, l); }
    let k = &mut m.locks[l];
    match from { Mode::Read => k.readers -= 1, Mode::Up => k.up = false, Mode::Write => k.wr = false }
    match to { Mode::Read => k.readers += 1, Mode::Up => k.up = true, Mode::Write => k.wr = true }
    m.guards[g].mode = to;
    let n = m.locks[l].name.to_string(); let h = held(m);
    ev(m, vec![("e", "mode".into()), ("lock", n.into()), ("from", from.s().into()), ("to", to.s().into()), ("held", h)]);
    Ok(true)
}

fn some<'tcx>(t: Ty<'tcx>, v: V<'tcx>) -> V<'tcx> { V::Agg(t, 1, vec![v]) }
fn dest_ty<'tcx>(m: &M<'tcx>) -> Ty<'tcx> { m.frames.last().unwrap().dest_ty.unwrap() }

/// Call a callable *value* with untupled arguments.
pub fn call_value<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, f: V<'tcx>, av: Vec<V<'tcx>>, cont: Cont) -> Res<Flow<'tcx>> {
    match f {
        V::Fn(d, a) => { if !matches!(cont, Cont::None) { return call_fn_cont(i, m, d, a, av, cont); } let at = av.iter().map(|_| i.tcx.types.unit).collect(); call(i, m, V::Fn(d, a), av, at) }
        V::Ptr(ref p) => { let x = i.get(m, p)?; if let V::Agg(t, ..) = &x { if t.is_closure() { return call_closure(i, m, *t, f.clone(), av, cont); } } call_value(i, m, x, av, cont) }
        V::Boxed(a) => { let x = m.mem[a].clone(); if let V::Agg(t, ..) = &x { if t.is_closure() { return call_closure(i, m, *t, V::Ptr(Pl::root(a)), av, cont); } } call_value(i, m, x, av, cont) }
        V::RcP(a) => call_value(i, m, V::Ptr(Pl::root(a)), av, cont),
        V::Agg(t, v, fs) if t.is_closure() => {
            let ty::Closure(_, ca) = t.kind() else { unreachable!() };
            if ca.as_closure().kind() == ty::ClosureKind::FnOnce { return call_closure(i, m, t, V::Agg(t, v, fs), av, cont); }
            let al = i.alloc(m, V::Agg(t, v, fs), None, false);
            call_closure(i, m, t, V::Ptr(Pl::root(al)), av, cont)
        }
        V::Sym(n, t) => {
            if t.is_ref() || t.is_box() { let s = V::Sym(n, t); let p = ptr(i, m, &s)?; let x = i.get(m, &p)?; return call_value(i, m, x, av, cont); }
            opaque_call(i, m, &n, av, &[], true, cont)
        }
        o => bad(format!("call of {:?}", o)),
    }
}
fn call_closure<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, t: Ty<'tcx>, me: V<'tcx>, av: Vec<V<'tcx>>, cont: Cont) -> Res<Flow<'tcx>> {
    let ty::Closure(d, a) = t.kind() else { unreachable!() };
    let me = if a.as_closure().kind() == ty::ClosureKind::FnOnce { match me { V::Ptr(p) => i.get(m, &p)?, o => o } } else { me };
    let mut v = vec![me]; v.extend(av);
    if i.call_body(m, *d, a, v, cont)? { Ok(Flow::Go) } else { bad("closure body") }
}
fn call_fn_cont<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, d: DefId, a: GenericArgsRef<'tcx>, av: Vec<V<'tcx>>, cont: Cont) -> Res<Flow<'tcx>> {
    if matches!(i.tcx.def_kind(d), DefKind::Ctor(..)) { return bad("ctor as continuation callee"); }
    let Some(inst) = i.resolve(d, a) else { return bad("unresolved continuation callee") };
    if let Some(d2) = i.inst_item(&inst) { if !i.is_user_fn(d2) && i.inlinable(d2, &i.fkey(d2)) && i.call_body(m, d2, inst.args, av, cont)? { return Ok(Flow::Go); } }
    bad("opaque continuation callee")
}
fn carry<'tcx>(av: &[V<'tcx>]) -> Vec<V<'tcx>> { av.iter().filter(|v| !matches!(v, V::Ptr(_) | V::Int(_) | V::Str(_) | V::Fn(..))).cloned().collect() }
/// A call into code we know nothing about.
pub fn opaque_call<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, name: &str, av: Vec<V<'tcx>>, at: &[Ty<'tcx>], may_panic: bool, cont: Cont) -> Res<Flow<'tcx>> {
    if !matches!(cont, Cont::None) { return bad("opaque callee with continuation"); }
    let k = i.fresh(m, &format!("call {}", name));
    let txt: Vec<String> = av.iter().map(|v| render::short(i, m, v)).collect();
    let trees: Vec<J> = av.iter().map(|v| render::tree(i, m, v)).collect();
    let h = held(m);
    ev(m, vec![("e", "call".into()), ("f", name.into()), ("args", J::A(trees)), ("held", h)]);
    let t = dest_ty(m);
    if t.is_never() { return i.panic(m, name, carry(&av)); }
    let nm = format!("{}#{}({})", name, k, txt.join(","));
    // anything reachable through an exclusive reference may have been replaced
    for (v, t) in av.iter().zip(at.iter()) { if let (V::Ptr(p), ty::Ref(_, inner, mu)) = (v, t.kind()) { if mu.is_mut() { let hn: Name = format!("{}!{}", nm, render::short(i, m, v)).into(); i.put(m, p, V::Sym(hn, *inner))?; } } }
    let r = if t.is_unit() { i.unit() } else { V::Sym(nm.clone().into(), t) };
    if may_panic {
        let mut m2 = m.clone();
        let f2 = i.panic(&mut m2, name, carry(&av))?;
        let f1 = i.deliver(m, r)?;
        return Ok(join(m, f1, m2, f2));
    }
    i.deliver(m, r)
}
fn join<'tcx>(m: &mut M<'tcx>, f1: Flow<'tcx>, m2: M<'tcx>, f2: Flow<'tcx>) -> Flow<'tcx> {
    let _ = (f1, f2);
    Flow::Split(vec![m.clone(), m2])
}
fn pure<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, name: &str, av: &[V<'tcx>], at: &[Ty<'tcx>]) -> Res<Flow<'tcx>> {
    let t = dest_ty(m);
    for v in av { if let V::Agg(ct, _, ups) = v { if let ty::Closure(_, ca) = ct.kind() {
        if ca.as_closure().upvar_tys().iter().zip(ups).any(|(u, x)| u.is_mutable_ptr() && matches!(x, V::Ptr(_))) { return bad(format!("{} given a closure with effects", name)); }
    } } }
    if t.is_never() { let why = av.iter().find_map(|v| if let V::Str(s) = v { Some(s.to_string()) } else { None }).unwrap_or_default(); return i.panic(m, &format!("{} {}", name, why), carry(av)); }
    let txt: Vec<String> = av.iter().map(|v| render::capped(render::value_text(i, m, v))).collect();
    let nm: Name = if av.is_empty() { format!("{}<{}>", name, crate::facts::tystr(t)).into() } else { format!("{}({})", name, txt.join(",")).into() };
    for (v, ty) in av.iter().zip(at.iter()) { if let (V::Ptr(p), ty::Ref(_, inner, mu)) = (v, ty.kind()) { if mu.is_mut() { let hn: Name = format!("{}!", nm).into(); i.put(m, p, V::Sym(hn, *inner))?; } } }
    let r = if t.is_unit() { i.unit() } else { V::Sym(nm, t) };
    i.deliver(m, r)
}
fn poll<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, v: V<'tcx>) -> Res<Flow<'tcx>> {
    match v {
        V::Agg(t, _, f) if t.is_adt() && f.len() == 1 => poll(i, m, f.into_iter().next().unwrap()),
        V::Ptr(p) => { let x = i.get(m, &p)?; poll(i, m, x) }
        V::Boxed(a) => { let x = m.mem[a].clone(); poll(i, m, x) }
        V::Coro(c) => match m.coros[c].st { CS::New => { i.start_coro(m, c, Cont::Poll { coro: c })?; Ok(Flow::Go) } CS::Running => bad("coroutine polled while running"), CS::Suspended(_) => bad("poll after cancellation"), CS::Done => i.panic(m, "async fn resumed after completion", vec![]) },
        V::Leaf(l) => {
            m.leafs[l].polled = true;
            let (lk, mode) = (m.leafs[l].lock, m.leafs[l].mode);
            let n = format!("{} {}", mode.s(), m.locks[lk].name); let h = held(m);
            ev(m, vec![("e", "await".into()), ("on", n.into()), ("held", h)]);
            let mut m2 = m.clone(); m2.cancelling = true; let f2 = i.finish_poll(&mut m2, None)?;
            match acq_or_exit(i, m, lk, mode, "await")? { Ok(g) => { m.leafs[l].done = true; let f1 = i.finish_poll(m, Some(V::Guard(g)))?; Ok(join(m, f1, m2, f2)) } Err(f) => Ok(f) }
        }
        V::Sym(n, t) => {
            if t.is_ref() || t.is_box() { let s = V::Sym(n.clone(), t); if t.is_ref() { let p = ptr(i, m, &s)?; let x = i.get(m, &p)?; return poll(i, m, x); } }
            let h = held(m);
            ev(m, vec![("e", "await".into()), ("on", n.to_string().into()), ("held", h)]);
            m.polled.push(n.clone());
            let pt = dest_ty(m); let ty::Adt(_, pa) = pt.kind() else { return bad("poll type") };
            let mut m2 = m.clone(); m2.cancelling = true; let _ = i.finish_poll(&mut m2, None)?;
            let mut m3 = m.clone(); let _ = i.panic(&mut m3, &n, vec![])?;
            let out = pa.type_at(0);
            let r = if out.is_unit() { i.unit() } else { V::Sym(format!("await({})", n).into(), out) };
            let _ = i.finish_poll(m, Some(r))?;
            Ok(Flow::Split(vec![m.clone(), m2, m3]))
        }
        o => bad(format!("poll of {:?}", o)),
    }
}
fn untuple<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, v: V<'tcx>) -> Res<Vec<V<'tcx>>> {
    match v { V::Agg(_, _, f) => Ok(f), V::Sym(n, t) => match i.expand(m, &n, t, None)? { V::Agg(_, _, f) => Ok(f), _ => bad("untuple") }, o => bad(format!("untuple {:?}", o)) }
}
fn simple_copy(t: Ty<'_>) -> bool { t.is_primitive() || matches!(t.kind(), ty::Ref(_, _, ty::Mutability::Not) | ty::FnPtr(..) | ty::FnDef(..) | ty::RawPtr(..)) || t.is_unit() }

pub fn call<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, fv: V<'tcx>, mut av: Vec<V<'tcx>>, at: Vec<Ty<'tcx>>) -> Res<Flow<'tcx>> {
    let V::Fn(d, a) = fv else { return call_value(i, m, fv, av, Cont::None) };
    let tcx = i.tcx;
    if let DefKind::Ctor(..) = tcx.def_kind(d) {
        let t = dest_ty(m);
        let var = match t.kind() { ty::Adt(ad, _) if ad.is_enum() => ad.variant_index_with_ctor_id(d).as_u32(), _ => 0 };
        return i.deliver(m, V::Agg(t, var, av));
    }
    let k0 = i.fkey(d);
    match k0.as_str() {
        "core::future::future::Future::poll" => { let f = av.swap_remove(0); return poll(i, m, f); }
        "core::future::into_future::IntoFuture::into_future" => { let v = av.swap_remove(0); return i.deliver(m, v); }
        "core::future::get_context" => { let t = dest_ty(m); return i.deliver(m, V::Sym("ctx".into(), t)); }
        "core::ops::function::Fn::call" | "core::ops::function::FnMut::call_mut" | "core::ops::function::FnOnce::call_once" => {
            let tup = av.pop().unwrap(); let f = av.pop().unwrap();
            let args = untuple(i, m, tup)?;
            return call_value(i, m, f, args, Cont::None);
        }
        "core::clone::Clone::clone" => {
            let st = a.type_at(0);
            if simple_copy(st) { let p = ptr(i, m, &av[0])?; let v = i.get(m, &p)?; return i.deliver(m, v); }
            if let ty::Adt(ad, _) = st.kind() { let p = i.path(ad.did());
                if matches!(p.as_str(), "alloc::rc::Rc" | "alloc::sync::Arc" | "alloc::rc::Weak" | "alloc::sync::Weak") {
                    let (_, v) = behind(i, m, &av[0])?;
                    return match v { V::RcP(_) | V::WeakP(_) => i.deliver(m, v), v => { let s = render::short(i, m, &v); i.deliver(m, V::Sym(format!("share({})", s).into(), st)) } };
                }
            }
        }
        _ => {}
    }
    let inst = i.resolve(d, a);
    let Some(inst) = inst else {
        // unresolved trait method on an opaque type
        let tr = tcx.trait_of_assoc(d);
        let local_tr = tr.is_some_and(|t| t.is_local());
        let n = tcx.item_name(d).to_string();
        if local_tr { return opaque_call(i, m, &n, av, &at, true, Cont::None); }
        return pure(i, m, &n, &av, &at);
    };
    // what an opaque iterator does with a closure follows from its `next`: the trait's own body says how
    if super::interp::UNROLL.is_some() && matches!(k0.strip_prefix("core::iter::traits::iterator::Iterator::"), Some("fold" | "try_fold" | "for_each" | "try_for_each" | "any" | "all" | "find" | "find_map" | "position"))
        && inst.def_id() != d && i.call_body(m, d, a, av.clone(), Cont::None)? { return Ok(Flow::Go); }
    let (d2, a2) = match inst.def {
        InstanceKind::Item(d2) => (d2, inst.args),
        InstanceKind::Intrinsic(d2) => { return intrinsic(i, m, d2, inst.args, av, at); }
        _ => { let n = tcx.opt_item_name(d).map_or("shim".into(), |n| n.to_string()); return pure(i, m, &n, &av, &at); }
    };
    let key = i.fkey(d2);
    if let Some(f) = library(i, m, &key, d2, a2, &mut av, &at)? { return Ok(f); }
    let name = tcx.opt_item_name(d2).map_or(key.clone(), |n| n.to_string());
    if i.is_user_fn(d2) {
        let trait_impl = tcx.opt_parent(d2).is_some_and(|p| matches!(tcx.def_kind(p), DefKind::Impl { of_trait: true }));
        // conversions, clones and comparisons of opaque types: pure, named by structure
        if trait_impl { return pure(i, m, &name, &av, &at); }
        let asy = tcx.asyncness(d2).is_async();
        return opaque_call(i, m, &name, av, &at, !asy, Cont::None);
    }
    if dest_ty(m).is_never() && !d2.is_local() { return pure(i, m, &key, &av, &at); }
    if i.inlinable(d2, &key) && i.call_body(m, d2, a2, av.clone(), Cont::None)? { return Ok(Flow::Go); }
    if tcx.opt_parent(d2).is_some_and(|p| matches!(tcx.def_kind(p), DefKind::Impl { of_trait: true })) { return pure(i, m, &name, &av, &at); }
    pure(i, m, &key, &av, &at)
}

fn library<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, key: &str, d: DefId, a: GenericArgsRef<'tcx>, av: &mut Vec<V<'tcx>>, _at: &[Ty<'tcx>]) -> Res<Option<Flow<'tcx>>> {
    let name = key.rsplit("::").next().unwrap_or("");
    let _ = (d, a);
    macro_rules! give { ($v:expr) => {{ let v = $v; return Ok(Some(i.deliver(m, v)?)); }} }
    macro_rules! guard { ($l:expr, $mode:expr, $how:expr) => {{ let l = $l; match acq_or_exit(i, m, l, $mode, $how)? { Ok(g) => give!(V::Guard(g)), Err(f) => return Ok(Some(f)) } }} }
    let adt = key.trim_start_matches('<').split(" as ").next().unwrap_or("").to_string();
    let owner = if key.starts_with('<') { adt.clone() } else { key.rsplit_once("::").map_or("", |x| x.0).to_string() };
    // ---- locks
    if let Some(kind) = lock_kind(&owner) {
        match name {
            "new" | "const_new" | "from" => { let cty = { let t = dest_ty(m); match t.kind() { ty::Adt(_, x) => x.types().last().unwrap(), _ => return bad("lock type") } }; let n: Name = format!("new{}", i.fresh(m, "lock")).into(); let v = av.pop().unwrap(); let l = mk_lock(i, m, n, kind, v, cty, false); give!(V::Lock(l)) }
            "default" => { let cty = { let t = dest_ty(m); match t.kind() { ty::Adt(_, x) => x.types().last().unwrap(), _ => return bad("lock type") } }; let n: Name = format!("new{}", i.fresh(m, "lock")).into(); let v = default_of(i, cty); let l = mk_lock(i, m, n, kind, v, cty, false); give!(V::Lock(l)) }
            "into_inner" => {
                let v = av.pop().unwrap();
                let l = match v { V::Lock(l) => l, v @ V::Sym(..) => { let al = i.alloc(m, v, None, false); raw_lock(i, m, &Pl::root(al))?.unwrap() } o => return bad(format!("into_inner {:?}", o)) };
                let c = m.locks[l].content; let v = std::mem::replace(&mut m.mem[c], V::Uninit); give!(v)
            }
            "get_mut" => { let l = lock_at(i, m, &av[0])?; give!(V::Ptr(Pl::root(m.locks[l].content))) }
            "as_ptr" | "data_ptr" => { let l = lock_at(i, m, &av[0])?; let n = m.locks[l].name.to_string(); ev(m, vec![("e", "raw_access".into()), ("lock", n.into())]); give!(V::Ptr(Pl::root(m.locks[l].content))) }
            "read" | "write" | "upgradable_read" | "read_recursive" | "lock" if kind == LK::Pl => { let l = lock_at(i, m, &av[0])?; guard!(l, match name { "read" | "read_recursive" => Mode::Read, "upgradable_read" => Mode::Up, _ => Mode::Write }, if name == "read_recursive" { "read_recursive" } else { "block" }) }
            "blocking_read" | "blocking_write" if kind == LK::Tokio => { let l = lock_at(i, m, &av[0])?; guard!(l, if name == "blocking_read" { Mode::Read } else { Mode::Write }, "blocking") }
            "read" | "write" if kind == LK::Tokio => { let l = lock_at(i, m, &av[0])?; m.leafs.push(Leaf { lock: l, mode: if name == "read" { Mode::Read } else { Mode::Write }, polled: false, done: false, owner_moved: false }); let x = m.leafs.len() - 1; give!(V::Leaf(x)) }
            "borrow" | "borrow_mut" if kind == LK::RefCell && !key.starts_with('<') => { let l = lock_at(i, m, &av[0])?; guard!(l, if name == "borrow" { Mode::Read } else { Mode::Write }, "borrow") }
            "replace" if kind == LK::RefCell => { let l = lock_at(i, m, &av[0])?; if m.locks[l].wr || m.locks[l].readers > 0 { return Ok(Some(i.panic(m, "RefCell already borrowed", vec![])?)); } let v = av.pop().unwrap(); let c = m.locks[l].content; let old = std::mem::replace(&mut m.mem[c], v); borrowed(m, l); give!(old) }
            "take" if kind == LK::RefCell => { let l = lock_at(i, m, &av[0])?; if m.locks[l].wr || m.locks[l].readers > 0 { return Ok(Some(i.panic(m, "RefCell already borrowed", vec![])?)); } let t = m.locks[l].cty; let v = default_of(i, t); let c = m.locks[l].content; let old = std::mem::replace(&mut m.mem[c], v); borrowed(m, l); give!(old) }
            "try_read" | "try_write" | "try_upgradable_read" | "try_borrow" | "try_borrow_mut" | "try_lock" => {
                let l = lock_at(i, m, &av[0])?; let t = dest_ty(m);
                let ok_var = match t.kind() { ty::Adt(x, _) if i.path(x.did()).ends_with("Option") => 1, _ => 0 };
                let mode = match name { "try_read" | "try_borrow" => Mode::Read, "try_upgradable_read" => Mode::Up, _ => Mode::Write };
                let fr = i.fresh(m, "try"); let n = format!("try({})#{}", m.locks[l].name, fr);
                let mut m2 = m.clone(); m2.refine.insert(n.clone().into(), R::Int(0));
                let fail = if ok_var == 1 { V::Agg(t, 0, vec![]) } else { V::Agg(t, 1, vec![V::Sym("try_error".into(), i.tcx.types.unit)]) };
                i.deliver(&mut m2, fail)?;
                m.refine.insert(n.into(), R::Int(1));
                match acquire(i, m, l, mode, "try")? { Some(g) => { i.deliver(m, V::Agg(t, ok_var, vec![V::Guard(g)]))?; return Ok(Some(Flow::Split(vec![m.clone(), m2]))); } None => return Ok(Some(Flow::Split(vec![m2]))) }
            }
            "replace_with" | "swap" if kind == LK::RefCell => return Ok(None),
            "is_locked" | "is_locked_exclusive" => { let l = lock_at(i, m, &av[0])?; let fr = i.fresh(m, "isl"); let n: Name = format!("{}({})#{}", name, m.locks[l].name, fr).into(); let t = dest_ty(m); give!(V::Sym(n, t)) }
            _ if key.starts_with('<') => {}
            _ => { let l = lock_at(i, m, &av[0]).ok().map(|l| m.locks[l].name.to_string()); return bad(format!("unmodelled lock operation {} on {:?}", key, l)); }
        }
    }
    // ---- guards
    let is_guard = (owner.starts_with("lock_api") || owner.starts_with("parking_lot") || owner.starts_with("tokio::sync")) && owner.contains("Guard") || owner == "core::cell::Ref" || owner == "core::cell::RefMut";
    if is_guard {
        match name {
            "deref" | "deref_mut" => { let g = guard_of(i, m, &av[0])?; let t = m.guards[g].target.clone();
                if name == "deref_mut" && m.guards[g].mode != Mode::Write { return bad("deref_mut of a non-write guard"); }
                if !m.guards[g].live { return bad("use of a released guard"); }
                give!(V::Ptr(t)) }
            "map" => { let f = av.pop().unwrap(); let g = guard_of(i, m, &av[0])?; let t = V::Ptr(m.guards[g].target.clone());
                return Ok(Some(call_value(i, m, f, vec![t], Cont::GuardMap { guard: g, try_: None })?)); }
            "filter_map" | "try_map" => { let f = av.pop().unwrap(); let g = guard_of(i, m, &av[0])?; let t = V::Ptr(m.guards[g].target.clone());
                return Ok(Some(call_value(i, m, f, vec![t], Cont::GuardMap { guard: g, try_: Some(()) })?)); }
            "upgrade" | "downgrade" | "downgrade_to_upgradable" | "downgrade_upgradable" => { let g = guard_of(i, m, &av[0])?;
                let to = match name { "upgrade" => Mode::Write, "downgrade" => Mode::Read, _ => Mode::Up };
                if !change_mode(i, m, g, to)? { return Ok(Some(Flow::Exit(Exit::Deadlock))); } give!(V::Guard(g)) }
            "try_upgrade" => { let g = guard_of(i, m, &av[0])?; let t = dest_ty(m);
                let fr = i.fresh(m, "try"); let n = format!("try_upgrade#{}", fr);
                let mut m2 = m.clone(); m2.refine.insert(n.clone().into(), R::Int(0));
                i.deliver(&mut m2, V::Agg(t, 1, vec![V::Guard(g)]))?;
                m.refine.insert(n.into(), R::Int(1));
                if !change_mode(i, m, g, Mode::Write)? { return Ok(Some(Flow::Split(vec![m2]))); }
                i.deliver(m, V::Agg(t, 0, vec![V::Guard(g)]))?;
                return Ok(Some(Flow::Split(vec![m.clone(), m2]))); }
            "into_mapped" => { let g = guard_of(i, m, &av[0])?; give!(V::Guard(g)) }
            "rwlock" => { return bad("guard::rwlock"); }
            "fmt" => return Ok(None),
            _ if key.starts_with('<') => return Ok(None),
            _ => return bad(format!("unmodelled guard operation {}", key)),
        }
    }
    // ---- status flags
    if owner.contains("sync::atomic::Atomic") {
        match name {
            "new" => { let t = dest_ty(m); let v = av.pop().unwrap(); let n: Name = format!("new{}", i.fresh(m, "atom")).into(); m.atoms.push(Atom { name: n, val: v, shared: false, lock: None, k: 0, ty: t }); let x = m.atoms.len() - 1; give!(V::Atom(x)) }
            "load" | "store" | "swap" | "fetch_or" | "fetch_and" | "fetch_xor" | "fetch_nand" | "fetch_not" | "compare_exchange" | "compare_exchange_weak" => {
                let x = atom_at(i, m, &av[0])?;
                let lk = m.atoms[x].lock;
                let is_held = lk.is_some_and(|l| { let k = &m.locks[l]; k.wr || k.up || k.readers > 0 });
                let is_excl = lk.is_some_and(|l| m.locks[l].wr);
                if m.atoms[x].shared && !is_held {
                    // another thread may have changed it since: a fresh snapshot
                    m.atoms[x].k += 1; let n: Name = format!("flag({})#{}", m.atoms[x].name, m.atoms[x].k).into();
                    if name == "load" { let nn = m.atoms[x].name.to_string(); ev(m, vec![("e", "flag_load".into()), ("flag", nn.into())]); give!(V::Sym(n, i.tcx.types.bool)) }
                    m.atoms[x].val = V::Sym(n, i.tcx.types.bool);
                }
                if name == "load" { let v = m.atoms[x].val.clone(); give!(v) }
                let old = m.atoms[x].val.clone();
                let bool_ty = i.tcx.types.bool;
                let mut same = None;
                let new = if matches!(name, "store" | "swap") { av[1].clone() } else {
                    if dest_ty(m) != bool_ty && !name.starts_with("compare") { return bad(format!("unmodelled atomic operation {}", key)); }
                    let was = i.resolve_bool(m, &old)?;
                    let arg = if name == "fetch_not" { true } else { i.resolve_bool(m, &av[1])? };
                    match name {
                        "fetch_or" => V::Int((was | arg) as _),
                        "fetch_and" => V::Int((was & arg) as _),
                        "fetch_nand" => V::Int((!(was & arg)) as _),
                        "fetch_xor" | "fetch_not" => V::Int((was ^ arg) as _),
                        _ => { same = Some(was == arg); if was == arg { av[2].clone() } else { old.clone() } }
                    }
                };
                m.atoms[x].val = new;
                if let Some(same) = same {
                    let t = dest_ty(m);
                    if same && m.atoms[x].shared && !is_excl { let n = m.atoms[x].name.to_string(); let h = held(m); ev(m, vec![("e", "flag_store_unlocked".into()), ("flag", n.into()), ("held", h)]); }
                    give!(V::Agg(t, if same { 0 } else { 1 }, vec![old]))
                }
                if m.atoms[x].shared && !is_excl { let n = m.atoms[x].name.to_string(); let h = held(m); ev(m, vec![("e", "flag_store_unlocked".into()), ("flag", n.into()), ("held", h)]); }
                if name != "store" { give!(old) } give!(i.unit())
            }
            "get_mut" => { return bad("atomic get_mut"); }
            "into_inner" => { let v = av.pop().unwrap(); let al = i.alloc(m, v, None, false); let x = raw_atom(i, m, &Pl::root(al))?; match x { Some(x) => { let v = m.atoms[x].val.clone(); give!(v) } None => return bad("atomic into_inner") } }
            _ if key.starts_with('<') => {}
            _ => return bad(format!("unmodelled atomic operation {}", key)),
        }
    }
    match key {
        // ---- cells
        "core::cell::UnsafeCell::get" | "core::cell::UnsafeCell::get_mut" | "core::cell::UnsafeCell::raw_get" | "core::cell::Cell::as_ptr" | "core::cell::UnsafeCell::as_mut_unchecked" | "core::cell::UnsafeCell::as_ref_unchecked" => { let p = ptr(i, m, &av[0])?; give!(V::Ptr(p.f(0))) }
        "core::cell::UnsafeCell::new" => { let t = dest_ty(m); let v = av.pop().unwrap(); give!(V::Agg(t, 0, vec![v])) }
        "core::pin::Pin::new_unchecked" | "core::pin::Pin::new" => { let t = dest_ty(m); let v = av.pop().unwrap(); give!(V::Agg(t, 0, vec![v])) }
        // ---- boxes and shared pointers
        "alloc::boxed::Box::new" | "alloc::boxed::box_new" => { let v = av.pop().unwrap(); let al = i.alloc(m, v, None, false); give!(V::Boxed(al)) }
        "alloc::boxed::Box::pin" | "alloc::boxed::Box::into_pin" => { let t = dest_ty(m); let v = av.pop().unwrap(); let v = if name == "pin" { let al = i.alloc(m, v, None, false); V::Boxed(al) } else { v }; give!(V::Agg(t, 0, vec![v])) }
        "alloc::rc::Rc::new" | "alloc::sync::Arc::new" | "alloc::rc::Rc::pin" | "alloc::sync::Arc::pin" => { let v = av.pop().unwrap(); let al = i.alloc(m, v, None, true); give!(V::RcP(al)) }
        "alloc::rc::Rc::new_cyclic" | "alloc::sync::Arc::new_cyclic" => {
            let f = av.pop().unwrap(); let al = i.alloc(m, V::Uninit, None, true);
            let w = i.alloc(m, V::WeakP(al), None, false);
            return Ok(Some(call_value(i, m, f, vec![V::Ptr(Pl::root(w))], Cont::NewCyclic { alloc: al })?));
        }
        "alloc::rc::Weak::new" | "alloc::sync::Weak::new" => { let t = dest_ty(m); give!(V::Sym("weak_dangling".into(), t)) }
        "alloc::rc::Rc::downgrade" | "alloc::sync::Arc::downgrade" => { let (_, v) = behind(i, m, &av[0])?; let t = dest_ty(m); match v { V::RcP(x) => give!(V::WeakP(x)), v => { let s = render::short(i, m, &v); give!(V::Sym(format!("downgrade({})", s).into(), t)) } } }
        "alloc::rc::Weak::upgrade" | "alloc::sync::Weak::upgrade" => {
            let (_, v) = behind(i, m, &av[0])?; let t = dest_ty(m);
            match v { V::WeakP(x) => { if matches!(m.mem[x], V::Uninit) { give!(V::Agg(t, 0, vec![])) } give!(some(t, V::RcP(x))) } v => { let s = render::short(i, m, &v); let s = s.strip_prefix("share(").and_then(|x| x.strip_suffix(")")).unwrap_or(&s); give!(V::Sym(format!("upgrade({})", s).into(), t)) } }
        }
        "<alloc::boxed::Box as core::ops::deref::Deref>::deref" | "<alloc::boxed::Box as core::ops::deref::DerefMut>::deref_mut" | "<alloc::rc::Rc as core::ops::deref::Deref>::deref" | "<alloc::sync::Arc as core::ops::deref::Deref>::deref" | "<alloc::boxed::Box as core::convert::AsRef>::as_ref" => { let (_, v) = behind(i, m, &av[0])?; let p = ptr(i, m, &v)?; give!(V::Ptr(p)) }
        // ---- moves through memory
        "core::mem::replace" => { let v = av.pop().unwrap(); let p = ptr(i, m, &av[0])?; let old = i.get(m, &p)?; i.put(m, &p, v)?; give!(old) }
        "core::mem::swap" => { let p = ptr(i, m, &av[0])?; let q = ptr(i, m, &av[1])?; let x = i.get(m, &p)?; let y = i.get(m, &q)?; i.put(m, &p, y)?; i.put(m, &q, x)?; give!(i.unit()) }
        "core::mem::forget" => { for v in carry(av) { if let V::Guard(g) = v { let n = m.locks[m.guards[g].lock].name.to_string(); ev(m, vec![("e", "forgot_guard".into()), ("lock", n.into())]); } } give!(i.unit()) }
        "core::ptr::read" | "core::ptr::const_ptr::read" | "core::ptr::mut_ptr::read" => { let p = ptr(i, m, &av[0])?; let v = i.get(m, &p)?; give!(v) }
        "core::ptr::write" | "core::ptr::mut_ptr::write" => { let v = av.pop().unwrap(); let p = ptr(i, m, &av[0])?; i.put(m, &p, v)?; give!(i.unit()) }
        _ => {}
    }
    Ok(None)
}
pub fn default_of<'tcx>(i: &It<'_, 'tcx>, t: Ty<'tcx>) -> V<'tcx> {
    match t.kind() {
        ty::Adt(a, _) if i.path(a.did()) == "core::option::Option" => V::Agg(t, 0, vec![]),
        ty::Bool | ty::Int(_) | ty::Uint(_) => V::Int(0),
        ty::Tuple(x) if x.is_empty() => i.unit(),
        _ => V::Sym(format!("default<{}>", crate::facts::tystr(t)).into(), t),
    }
}
fn intrinsic<'tcx>(i: &It<'_, 'tcx>, m: &mut M<'tcx>, d: DefId, a: GenericArgsRef<'tcx>, mut av: Vec<V<'tcx>>, at: Vec<Ty<'tcx>>) -> Res<Flow<'tcx>> {
    let n = i.tcx.item_name(d).to_string();
    match n.as_str() {
        "read_via_copy" | "volatile_load" => { let p = ptr(i, m, &av[0])?; let v = i.get(m, &p)?; i.deliver(m, v) }
        "write_via_move" | "volatile_store" => { let v = av.pop().unwrap(); let p = ptr(i, m, &av[0])?; i.put(m, &p, v)?; let u = i.unit(); i.deliver(m, u) }
        "transmute" | "transmute_unchecked" | "black_box" | "likely" | "unlikely" => { let v = av.swap_remove(0); i.deliver(m, v) }
        "forget" | "assume" | "assert_inhabited" | "cold_path" => { let u = i.unit(); i.deliver(m, u) }
        "needs_drop" => i.deliver(m, V::Int(1)),
        "unreachable" => Err(Stop::Dead),
        "discriminant_value" => {
            let (_, v) = behind(i, m, &av[0])?;
            if !matches!(&v, V::Agg(t, ..) | V::Sym(_, t) if t.is_enum()) { return pure(i, m, &n, &av, &at); }
            let (t, k) = i.variant(m, &v)?;
            let d = t.discriminant_for_variant(i.tcx, rustc_abi::VariantIdx::from_u32(k)).map_or(k as u128, |d| d.val);
            i.deliver(m, V::Int(d))
        }
        "abort" => Ok(Flow::Exit(Exit::Bad("abort".into()))),
        _ => { if i.body(d).is_some() && !i.tcx.intrinsic(d).is_some_and(|x| x.must_be_overridden) && i.call_body(m, d, a, av.clone(), Cont::None)? { return Ok(Flow::Go); } pure(i, m, &n, &av, &at) }
    }
}
