//! Path-partitioned abstract interpretation of MIR.  The abstract domain tracks provenance of opaque values (`Sym`),
//! enum-variant facts, lock/borrow typestate, and where each value is stored.  No solver, no concrete execution:
//! every opaque value stays opaque, every undetermined branch is split on the fact it tests.
use crate::{json::*, models, render, Bodies};
use rustc_abi::VariantIdx;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Name = Rc<str>;
pub type Res<T> = Result<T, Stop>;
#[derive(Clone, Debug, PartialEq)]
pub enum R { Var(u32), Int(u128), NotInt(Vec<u128>) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum P { F(u32), D(u32) }
#[derive(Clone, Debug, PartialEq)]
pub struct Pl { pub a: usize, pub p: Vec<P> }
impl Pl { pub fn root(a: usize) -> Pl { Pl { a, p: vec![] } } pub fn f(&self, i: u32) -> Pl { let mut x = self.clone(); x.p.push(P::F(i)); x } pub fn d(&self, i: u32) -> Pl { let mut x = self.clone(); x.p.push(P::D(i)); x } }
#[derive(Debug)]
pub enum Stop { Fork(Vec<(Name, R)>), Dead, Bad(String) }
pub fn bad<T>(s: impl Into<String>) -> Res<T> { Err(Stop::Bad(s.into())) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode { Read, Up, Write }
impl Mode { pub fn s(self) -> &'static str { match self { Mode::Read => "read", Mode::Up => "upgradable", Mode::Write => "write" } } }
#[derive(Clone, Debug)]
pub enum V<'tcx> {
    Uninit,
    Sym(Name, Ty<'tcx>),
    Int(u128),
    Str(Name),
    IsSome(Name),
    Agg(Ty<'tcx>, u32, Vec<V<'tcx>>),
    Ptr(Pl),
    Boxed(usize),
    RcP(usize),
    WeakP(usize),
    Fn(DefId, GenericArgsRef<'tcx>),
    Lock(usize),
    Atom(usize),
    Guard(usize),
    Leaf(usize),
    Coro(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LK { Pl, Tokio, RefCell }
#[derive(Clone, Debug)]
pub struct Lock<'tcx> { pub name: Name, pub kind: LK, pub content: usize, pub cty: Ty<'tcx>, pub shared: bool, pub readers: u32, pub up: bool, pub wr: bool, pub k: u32, pub atom: Option<usize>, pub touched: bool }
#[derive(Clone, Debug)]
pub struct Atom<'tcx> { pub name: Name, pub val: V<'tcx>, pub shared: bool, pub lock: Option<usize>, pub k: u32, pub ty: Ty<'tcx> }
#[derive(Clone, Debug)]
pub struct Guard { pub lock: usize, pub mode: Mode, pub target: Pl, pub live: bool }
#[derive(Clone, Debug)]
pub struct Leaf { pub lock: usize, pub mode: Mode, pub polled: bool, pub done: bool, pub owner_moved: bool }
#[derive(Clone, Debug)]
pub enum CS<'tcx> { New, Running, Suspended(Box<Frame<'tcx>>), Done }
#[derive(Clone, Debug)]
pub struct Coro<'tcx> { pub def: DefId, pub args: GenericArgsRef<'tcx>, pub ty: Ty<'tcx>, pub up: Vec<V<'tcx>>, pub st: CS<'tcx>, pub polled: bool }
#[derive(Clone, Debug)]
pub struct AllocMeta { pub name: Option<Name>, pub shared: bool, pub root: bool }

#[derive(Clone, Debug)]
pub enum Cont { None, GuardMap { guard: usize, try_: Option<()> }, NewCyclic { alloc: usize }, Poll { coro: usize }, RootCoro, SubRet, Ignore, EqNot }
#[derive(Clone, Debug)]
pub struct Frame<'tcx> {
    pub body: Option<Rc<Body<'tcx>>>, pub def: DefId, pub args: GenericArgsRef<'tcx>, pub promoted_of: Option<DefId>,
    pub locals: Vec<usize>, pub bb: BasicBlock, pub si: usize,
    pub dest: Option<Pl>, pub dest_ty: Option<Ty<'tcx>>, // where the *callee's* result of the pending call in this frame goes
    pub target: Option<BasicBlock>, pub unwind: UnwindAction,
    pub cont: Cont, pub drops: Vec<V<'tcx>>, pub in_cleanup: bool,
}
#[derive(Clone)]
pub struct M<'tcx> {
    pub mem: Vec<V<'tcx>>, pub meta: Vec<AllocMeta>, pub frames: Vec<Frame<'tcx>>,
    pub locks: Vec<Lock<'tcx>>, pub atoms: Vec<Atom<'tcx>>, pub guards: Vec<Guard>, pub leafs: Vec<Leaf>, pub coros: Vec<Coro<'tcx>>,
    pub refine: BTreeMap<Name, R>, pub fresh: BTreeMap<String, u32>, pub events: Vec<J>, pub polled: Vec<Name>, pub objs: BTreeMap<Name, usize>,
    pub cancelling: bool, pub steps: u32, pub sub_ret: Option<V<'tcx>>, pub roots: Vec<(Name, usize, Ty<'tcx>)>, pub driven: bool, pub notes: Vec<String>,
}
pub enum Exit<'tcx> { Return(V<'tcx>, Ty<'tcx>), Deadlock, Panic, Cancel, Dead, Bad(String) }
pub enum Flow<'tcx> { Go, Exit(Exit<'tcx>), Split(Vec<M<'tcx>>) }

pub struct I<'a, 'tcx> { pub tcx: TyCtxt<'tcx>, pub b: &'a Bodies<'tcx>, pub env: ty::TypingEnv<'tcx>, pub ext: std::cell::RefCell<HashMap<DefId, Rc<Body<'tcx>>>> }

impl<'a, 'tcx> I<'a, 'tcx> {
    pub fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>> + Clone>(&self, args: GenericArgsRef<'tcx>, t: T) -> T {
        let fb = ty::EarlyBinder::bind(self.tcx, t.clone());
        match self.tcx.try_instantiate_and_normalize_erasing_regions(args, self.env, fb.clone()) { Ok(x) => x, Err(_) => fb.instantiate(self.tcx, args).skip_norm_wip() }
    }
    pub fn path(&self, d: DefId) -> String { crate::facts::path(self.tcx, d) }
    /// Stable key of a function: `<adt path>::name`, `<adt as trait>::name`, `trait::name` or its path.
    pub fn fkey(&self, d: DefId) -> String {
        let tcx = self.tcx;
        if let Some(p) = tcx.opt_parent(d) { if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
            let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
            let s = match st.kind() { ty::Adt(a, _) => self.path(a.did()), _ => crate::facts::tystr(st) };
            let n = tcx.item_name(d);
            if of_trait { let t = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip(); return format!("<{} as {}>::{}", s, self.path(t.def_id), n); }
            return format!("{}::{}", s, n);
        } }
        self.path(d)
    }
    pub fn is_opaque_ty(&self, t: Ty<'tcx>) -> bool { match t.kind() { ty::Adt(a, _) => self.path(a.did()).contains("::opq::"), ty::Param(_) | ty::Alias(..) | ty::Dynamic(..) => true, _ => false } }
    pub fn is_user_fn(&self, d: DefId) -> bool {
        if self.path(d).contains("opq::") { return true; }
        d.is_local() && matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && matches!(self.tcx.codegen_fn_attrs(d).inline, rustc_attr_ir::InlineAttr::Never)
    }
    pub fn body(&self, d: DefId) -> Option<Rc<Body<'tcx>>> {
        if let Some(l) = d.as_local() { return self.b.main.get(&l).cloned(); }
        if let Some(b) = self.ext.borrow().get(&d) { return Some(b.clone()); }
        if !self.tcx.is_mir_available(d) { return None; }
        let b = Rc::new(self.tcx.optimized_mir(d).clone());
        self.ext.borrow_mut().insert(d, b.clone());
        Some(b)
    }
    pub fn inlinable(&self, d: DefId, key: &str) -> bool {
        if d.is_local() { return true; }
        let k = self.tcx.crate_name(d.krate); let k = k.as_str();
        if key.contains("core::fmt") || key.contains("core::str") || key.contains("core::panicking") || key.contains("core::num") || key.contains("core::slice") || key.contains("core::any") || key.contains("core::char") || key.contains("core::ub_checks") || key.contains("core::hash") { return false; }
        match k { "core" | "once_cell" => true, "alloc" => key.contains("alloc::boxed"), "std" => false, "async_trait" => true, _ => false }
    }

    // ---------- memory ----------
    pub fn alloc(&self, m: &mut M<'tcx>, v: V<'tcx>, name: Option<Name>, shared: bool) -> usize { m.mem.push(v); m.meta.push(AllocMeta { name, shared, root: false }); m.mem.len() - 1 }
    pub fn child(&self, name: &str, ty: Ty<'tcx>, var: Option<u32>, i: u32) -> (Name, Ty<'tcx>) {
        match ty.kind() {
            ty::Adt(a, args) => {
                let v = a.variant(VariantIdx::from_u32(var.unwrap_or(0)));
                let f = &v.fields[rustc_abi::FieldIdx::from_u32(i)];
                let fty = self.norm(args, self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip());
                let p = self.path(a.did());
                let n = if a.is_enum() { format!("{}@{}.{}", name, v.name, f.name) }
                    else if p.ends_with("::OnceCell") || p.ends_with("cell::UnsafeCell") || p.ends_with("ManuallyDrop") || p.ends_with("cell::Cell") { format!("{}'", name) }
                    else { format!("{}.{}", name, f.name) };
                (n.into(), fty)
            }
            ty::Tuple(ts) => (format!("{}.{}", name, i).into(), ts[i as usize]),
            ty::Closure(_, a) => (format!("{}.up{}", name, i).into(), a.as_closure().upvar_tys()[i as usize]),
            ty::Coroutine(_, a) => (format!("{}.up{}", name, i).into(), a.as_coroutine().upvar_tys()[i as usize]),
            _ => (format!("{}.?{}", name, i).into(), ty),
        }
    }
    /// Expand an opaque aggregate into opaque parts.
    pub fn expand(&self, m: &mut M<'tcx>, name: &Name, ty: Ty<'tcx>, want: Option<u32>) -> Res<V<'tcx>> {
        let n = match ty.kind() {
            ty::Adt(a, _) if a.is_struct() => { let v = a.non_enum_variant(); v.fields.len() }
            ty::Adt(a, _) if a.is_enum() => {
                let var = match m.refine.get(name) { Some(R::Var(v)) => *v, _ => match want { Some(w) => { m.refine.insert(name.clone(), R::Var(w)); w } None => return bad(format!("variant of {} unknown", name)) } };
                if let Some(w) = want { if w != var { return Err(Stop::Dead); } }
                let n = a.variant(VariantIdx::from_u32(var)).fields.len();
                let f = (0..n).map(|i| { let (nm, t) = self.child(name, ty, Some(var), i as u32); V::Sym(nm, t) }).collect();
                return Ok(V::Agg(ty, var, f));
            }
            ty::Tuple(ts) => ts.len(),
            ty::Closure(_, a) => a.as_closure().upvar_tys().len(),
            _ => return bad(format!("cannot expand {}: {}", name, ty)),
        };
        Ok(V::Agg(ty, 0, (0..n).map(|i| { let (nm, t) = self.child(name, ty, None, i as u32); V::Sym(nm, t) }).collect()))
    }
    pub fn walk<'m>(&self, m: &'m M<'tcx>, pl: &Pl) -> Option<&'m V<'tcx>> {
        let mut v = &m.mem[pl.a];
        for p in &pl.p { match (p, v) {
            (P::D(_), V::Agg(..)) => {}
            (P::F(i), V::Agg(_, _, f)) => v = f.get(*i as usize)?,
            _ => return None,
        } }
        Some(v)
    }
    pub fn ensure(&self, m: &mut M<'tcx>, pl: &Pl) -> Res<()> {
        loop {
            // find the first opaque value on the way
            let mut v = &m.mem[pl.a]; let mut hit = None;
            for (i, p) in pl.p.iter().enumerate() {
                match v {
                    V::Agg(_, var, f) => match p {
                        P::D(d) => { if d != var { return Err(Stop::Dead); } }
                        P::F(k) => { v = match f.get(*k as usize) { Some(x) => x, None => return bad("field out of range") }; }
                    },
                    V::Sym(n, t) => { hit = Some((i, n.clone(), *t, *p)); break; }
                    V::Boxed(_) | V::RcP(_) | V::Ptr(_) => { return Ok(()); } // transparent pointer wrappers
                    V::Guard(_) if *p == P::F(0) => { return Ok(()); } // the pointer within a `Ref` or `RefMut`
                    V::Uninit => {
                        // assignment into a not-yet-initialised aggregate is handled by `put`
                        return bad(format!("use of moved or uninitialised value at {:?}", pl));
                    }
                    other => return bad(format!("projection {:?} into {:?}", p, other)),
                }
            }
            let Some((i, n, t, p)) = hit else { return Ok(()) };
            let want = if let P::D(d) = p { Some(d) } else { None };
            let ex = self.expand(m, &n, t, want)?;
            let mut v = &mut m.mem[pl.a];
            for p in &pl.p[..i] { if let P::F(k) = p { v = match v { V::Agg(_, _, f) => &mut f[*k as usize], _ => return bad("ensure") }; } }
            *v = ex;
        }
    }
    pub fn get(&self, m: &mut M<'tcx>, pl: &Pl) -> Res<V<'tcx>> { self.ensure(m, pl)?; Ok(self.slot(m, pl)?.clone()) }
    pub fn slot<'m>(&self, m: &'m mut M<'tcx>, pl: &Pl) -> Res<&'m mut V<'tcx>> {
        let mut v = &mut m.mem[pl.a];
        for p in &pl.p {
            if let P::F(k) = p {
                if matches!(v, V::Boxed(_) | V::RcP(_) | V::Ptr(_) | V::Guard(_)) { continue; }
                v = match v { V::Agg(_, _, f) => match f.get_mut(*k as usize) { Some(x) => x, None => return bad("slot range") }, _ => return bad("slot") };
            }
        }
        Ok(v)
    }
    pub fn put(&self, m: &mut M<'tcx>, pl: &Pl, v: V<'tcx>) -> Res<()> {
        self.ensure(m, pl)?;
        *self.slot(m, pl)? = v; Ok(())
    }
    pub fn shared_of(&self, m: &M<'tcx>, pl: &Pl) -> bool { m.meta[pl.a].shared }
    /// Pointer value -> place it points to.
    pub fn deref(&self, m: &mut M<'tcx>, at: &Pl) -> Res<Pl> {
        let v = self.get(m, at)?;
        let sh = self.shared_of(m, at);
        if let Some(p) = self.deref_val(m, &v, sh)? { 
            return Ok(p);
        }
        bad(format!("deref of {:?}", v))
    }
    pub fn deref_val(&self, m: &mut M<'tcx>, v: &V<'tcx>, sh: bool) -> Res<Option<Pl>> {
        Ok(Some(match v {
            V::Ptr(p) => p.clone(),
            V::Guard(g) if m.guards[*g].live => m.guards[*g].target.clone(),
            V::Boxed(a) | V::RcP(a) => Pl::root(*a),
            V::Sym(n, t) => {
                if let Some(a) = m.objs.get(n) { return Ok(Some(Pl::root(*a))); }
                let (inner, s) = match t.kind() {
                    ty::Ref(_, t, mu) => (*t, if mu.is_mut() { sh } else { true }),
                    ty::RawPtr(t, _) => (*t, sh),
                    ty::Adt(a, args) if a.is_box() => (args.type_at(0), sh),
                    ty::Adt(a, args) if matches!(self.path(a.did()).as_str(), "alloc::rc::Rc" | "alloc::sync::Arc") => (args.type_at(0), true),
                    _ => return Ok(None),
                };
                let nm: Name = format!("(*{})", n).into();
                let a = self.alloc(m, V::Sym(nm.clone(), inner), Some(nm), s);
                m.objs.insert(n.clone(), a);
                Pl::root(a)
            }
            V::Agg(t, _, f) if t.is_adt() && f.len() >= 1 => { let x = f[0].clone(); return self.deref_val(m, &x, sh); } // Pin, NonNull, Unique, ...
            _ => return Ok(None),
        }))
    }
    pub fn place(&self, m: &mut M<'tcx>, p: &Place<'tcx>) -> Res<Pl> {
        let fr = m.frames.last().unwrap();
        let mut cur = Pl::root(fr.locals[p.local.as_usize()]);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => cur = self.deref(m, &cur)?,
                ProjectionElem::Field(i, _) => cur = cur.f(i.as_u32()),
                ProjectionElem::Downcast(_, v) => cur = cur.d(v.as_u32()),
                ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => {}
                ProjectionElem::Index(_) | ProjectionElem::ConstantIndex { from_end: false, .. } => {
                    // a fixed element of an opaque slice or array
                    let k = match e {
                        ProjectionElem::Index(l) => { let a = m.frames.last().unwrap().locals[l.as_usize()]; match self.get(m, &Pl::root(a))? { V::Int(k) => k, _ => return bad("index by an unknown number") } }
                        ProjectionElem::ConstantIndex { offset, .. } => offset as u128,
                        _ => unreachable!(),
                    };
                    cur = match self.get(m, &cur)? {
                        V::Sym(n, t) => {
                            let et = match t.kind() { ty::Slice(x) => *x, ty::Array(x, _) => *x, _ => return bad(format!("projection {:?}", e)) };
                            let nm: Name = format!("(*index({},{}))", n, k).into();
                            let a = match m.objs.get(&nm) { Some(a) => *a, None => { let a = self.alloc(m, V::Sym(nm.clone(), et), Some(nm.clone()), true); m.objs.insert(nm, a); a } };
                            Pl::root(a)
                        }
                        V::Agg(_, _, f) if (k as usize) < f.len() => cur.f(k as u32),
                        _ => return bad(format!("projection {:?}", e)),
                    };
                }
                other => return bad(format!("projection {:?}", other)),
            }
        }
        Ok(cur)
    }
    pub fn fresh(&self, m: &mut M<'tcx>, base: &str) -> u32 { let e = m.fresh.entry(base.to_string()).or_insert(0); *e += 1; *e }
    pub fn operand(&self, m: &mut M<'tcx>, o: &Operand<'tcx>) -> Res<V<'tcx>> {
        match o {
            Operand::Copy(p) => { let pl = self.place(m, p)?; self.get(m, &pl) }
            Operand::Move(p) => { let pl = self.place(m, p)?; let v = self.get(m, &pl)?;
                // pointers and scalars stay readable: moving them out is not observable
                if !matches!(v, V::Ptr(_) | V::Int(_) | V::Fn(..)) { *self.slot(m, &pl)? = V::Uninit; } Ok(v) }
            Operand::Constant(c) => self.constant(m, &c.const_),
            _ => Ok(V::Int(0)),
        }
    }
    pub fn unit(&self) -> V<'tcx> { V::Agg(self.tcx.types.unit, 0, vec![]) }
    pub fn constant(&self, m: &mut M<'tcx>, c: &mir::Const<'tcx>) -> Res<V<'tcx>> {
        let (args, def) = { let f = m.frames.last().unwrap(); (f.args, f.promoted_of.unwrap_or(f.def)) };
        let ty = self.norm(args, c.ty());
        match ty.kind() { ty::FnDef(d, a) => return Ok(V::Fn(*d, a.skip_binder())), ty::Tuple(t) if t.is_empty() => return Ok(self.unit()), _ => {} }
        let c2 = self.norm(args, *c);
        if let mir::Const::Unevaluated(u, _) = c2 { if let Some(pr) = u.promoted {
            let bd = if let Some(l) = u.def.as_local() { self.b.promoted.get(&l).and_then(|v| v.get(pr.as_usize()).cloned()) } else { Some(Rc::new(self.tcx.promoted_mir(u.def)[pr].clone())) };
            if let Some(bd) = bd { return self.run_sub(m, bd, u.def, u.args); }
        } }
        let _ = def;
        if let Ok(v) = c2.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
            match v {
                mir::ConstValue::ZeroSized => return Ok(match ty.kind() { ty::Adt(a, _) if a.is_enum() => V::Sym("zst-enum".into(), ty), ty::Closure(..) | ty::Adt(..) => { let n: Name = "zst".into(); self.expand(m, &n, ty, None).unwrap_or(V::Sym(n, ty)) }, _ => self.unit() }),
                mir::ConstValue::Scalar(s) => if let Ok(i) = s.try_to_scalar_int() { if ty.is_integral() || ty.is_bool() || ty.is_char() { return Ok(V::Int(i.to_bits(i.size()))); }
                    if let ty::Adt(a, _) = ty.kind() { if a.is_enum() { for (vi, d) in a.discriminants(self.tcx) { if d.val == i.to_bits(i.size()) && a.variant(vi).fields.is_empty() { return Ok(V::Agg(ty, vi.as_u32(), vec![])); } } } } },
                mir::ConstValue::Slice { .. } => if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) { return Ok(V::Str(String::from_utf8_lossy(b).to_string().into())); },
                _ => {}
            }
        }
        if let ty::Adt(a, _) = ty.kind() { if a.is_enum() { // e.g. const None
            if let Some(vi) = self.const_variant(&c2, ty) { let n = a.variant(vi).fields.len(); if n == 0 { return Ok(V::Agg(ty, vi.as_u32(), vec![])); } } } }
        Ok(V::Sym(format!("const {}", crate::facts::tystr(c2)).into(), ty))
    }
    fn const_variant(&self, c: &mir::Const<'tcx>, ty: Ty<'tcx>) -> Option<VariantIdx> {
        let v = c.eval(self.tcx, self.env, rustc_span::DUMMY_SP).ok()?;
        let d = self.tcx.try_destructure_mir_constant_for_user_output(v, ty)?; d.variant
    }
    fn run_sub(&self, m: &mut M<'tcx>, b: Rc<Body<'tcx>>, d: DefId, args: GenericArgsRef<'tcx>) -> Res<V<'tcx>> {
        let depth = m.frames.len();
        self.push(m, b, d, args, vec![], Cont::SubRet);
        m.frames.last_mut().unwrap().promoted_of = Some(d);
        for _ in 0..2000 {
            if m.frames.len() == depth { return m.sub_ret.take().ok_or(Stop::Bad("no sub ret".into())); }
            match self.step(m) { Flow::Go => {}, Flow::Exit(Exit::Bad(s)) => return bad(s), _ => return bad("fork or exit in constant") }
        }
        bad("constant too long")
    }
    pub fn push(&self, m: &mut M<'tcx>, b: Rc<Body<'tcx>>, def: DefId, args: GenericArgsRef<'tcx>, av: Vec<V<'tcx>>, cont: Cont) {
        let mut locals = vec![];
        for i in 0..b.local_decls.len() { let v = if i >= 1 && i <= av.len() { av[i - 1].clone() } else { V::Uninit }; locals.push(self.alloc(m, v, None, false)); }
        m.frames.push(Frame { body: Some(b), def, args, promoted_of: None, locals, bb: START_BLOCK, si: 0, dest: None, dest_ty: None, target: None, unwind: UnwindAction::Continue, cont, drops: vec![], in_cleanup: false });
    }
    pub fn push_drops(&self, m: &mut M<'tcx>, vs: Vec<V<'tcx>>) {
        let f = m.frames.last().unwrap();
        let (def, args) = (f.def, f.args);
        m.frames.push(Frame { body: None, def, args, promoted_of: None, locals: vec![], bb: START_BLOCK, si: 0, dest: None, dest_ty: None, target: None, unwind: UnwindAction::Continue, cont: Cont::Ignore, drops: vs, in_cleanup: false });
    }

    // ---------- facts about opaque values ----------
    pub fn resolve_bool(&self, m: &M<'tcx>, v: &V<'tcx>) -> Res<bool> {
        match v {
            V::Int(i) => Ok(*i != 0),
            V::IsSome(n) => match m.refine.get(n) { Some(R::Var(v)) => Ok(*v == 1), _ => Err(Stop::Fork(vec![(n.clone(), R::Var(0)), (n.clone(), R::Var(1))])) },
            V::Sym(n, _) => match m.refine.get(n) { Some(R::Int(i)) => Ok(*i != 0), _ => Err(Stop::Fork(vec![(n.clone(), R::Int(1)), (n.clone(), R::Int(0))])) },
            o => bad(format!("bool of {:?}", o)),
        }
    }
    pub fn variant(&self, m: &mut M<'tcx>, v: &V<'tcx>) -> Res<(Ty<'tcx>, u32)> {
        match v {
            V::Agg(t, i, _) => Ok((*t, *i)),
            V::Sym(n, t) => {
                if let Some(R::Var(i)) = m.refine.get(n) { return Ok((*t, *i)); }
                if let ty::Adt(a, args) = t.kind() { if a.is_enum() {
                    let mut opts = vec![];
                    for (i, vd) in a.variants().iter_enumerated() {
                        let empty = vd.fields.iter().any(|f| { let ft = self.norm(args, self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip()); ft.is_never() || matches!(ft.kind(), ty::Adt(x, _) if x.is_enum() && x.variants().is_empty()) });
                        if !empty { opts.push((n.clone(), R::Var(i.as_u32()))); }
                    }
                    return Err(Stop::Fork(opts));
                } }
                bad(format!("variant of opaque {} {}", n, t))
            }
            o => bad(format!("variant of {:?}", o)),
        }
    }
    fn rvalue(&self, m: &mut M<'tcx>, rv: &Rvalue<'tcx>, dty: Ty<'tcx>) -> Res<V<'tcx>> {
        match rv {
            Rvalue::Use(o, ..) | Rvalue::Repeat(o, _) => self.operand(m, o),
            Rvalue::CopyForDeref(p) => { let pl = self.place(m, p)?; self.get(m, &pl) }
            Rvalue::Ref(_, BorrowKind::Fake(_), _) => Ok(V::Uninit),
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => {
                // a reference to an unsized dyn behind a box is just the place
                if let Some((ProjectionElem::Deref, rest)) = p.projection.split_last() {
                    let mut cur = Pl::root(m.frames.last().unwrap().locals[p.local.as_usize()]);
                    if rest.is_empty() { if let V::Str(s) = self.get(m, &cur)? { return Ok(V::Str(s)); } }
                    let _ = &mut cur;
                }
                let pl = self.place(m, p)?; Ok(V::Ptr(pl)) }
            Rvalue::Cast(k, o, t) => {
                let v = self.operand(m, o)?;
                if let CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ClosureFnPointer(_), _) = k { return Ok(v); }
                let t = self.norm(m.frames.last().unwrap().args, *t);
                if let (V::Int(i), Some(sz)) = (&v, int_bits(t)) { return Ok(V::Int(if sz >= 128 { *i } else { *i & ((1u128 << sz) - 1) })); }
                if let V::Boxed(a) = v { if matches!(t.kind(), ty::RawPtr(..)) { return Ok(V::Ptr(Pl::root(a))); } }
                Ok(v)
            }
            Rvalue::BinaryOp(op, ab) => {
                let (a, b) = (self.operand(m, &ab.0)?, self.operand(m, &ab.1)?);
                if let (V::Int(x), V::Int(y), BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge) = (&a, &b, *op) {
                    // signed numbers compare as signed
                    let fr = m.frames.last().unwrap();
                    if let Some(body) = fr.body.clone() {
                        let t = self.norm(fr.args, ab.0.ty(&body.local_decls, self.tcx));
                        if let (ty::Int(_), Some(sz)) = (t.kind(), int_bits(t)) {
                            let se = |i: u128| if sz >= 128 { i as i128 } else { ((i << (128 - sz)) as i128) >> (128 - sz) };
                            let (x, y) = (se(*x), se(*y));
                            let r = match op { BinOp::Lt => x < y, BinOp::Le => x <= y, BinOp::Gt => x > y, _ => x >= y };
                            return Ok(V::Int(r as u128));
                        }
                    }
                }
                self.binop(m, *op, a, b, dty)
            }
            Rvalue::UnaryOp(UnOp::Not, o) => { let v = self.operand(m, o)?; if dty.is_bool() { return Ok(V::Int((!self.resolve_bool(m, &v)?) as u128)); } Ok(V::Sym(format!("not({})", render::short(self, m, &v)).into(), dty)) }
            Rvalue::UnaryOp(UnOp::Neg, o) => { let v = self.operand(m, o)?; Ok(V::Sym(format!("neg({})", render::short(self, m, &v)).into(), dty)) }
            Rvalue::UnaryOp(UnOp::PtrMetadata, o) => { let v = self.operand(m, o)?; Ok(V::Sym(format!("ptrmeta({})", render::short(self, m, &v)).into(), dty)) }
            Rvalue::Discriminant(p) => {
                let pl = self.place(m, p)?; let v = self.get(m, &pl)?;
                let (t, i) = self.variant(m, &v)?;
                let d = t.discriminant_for_variant(self.tcx, VariantIdx::from_u32(i)).map_or(i as u128, |d| d.val);
                Ok(V::Int(d))
            }
            Rvalue::Aggregate(k, ops) => {
                let mut f = vec![]; for o in ops.iter() { f.push(self.operand(m, o)?); }
                let args = m.frames.last().unwrap().args;
                match &**k {
                    AggregateKind::Adt(_, v, _, _, _) => { let v = V::Agg(dty, v.as_u32(), f); self.link_new(m, &v); Ok(v) }
                    AggregateKind::Tuple | AggregateKind::Array(_) => Ok(V::Agg(dty, 0, f)),
                    AggregateKind::Closure(..) => Ok(V::Agg(dty, 0, f)),
                    AggregateKind::Coroutine(d, a) => { let a = self.norm(args, *a); m.coros.push(Coro { def: *d, args: a, ty: dty, up: f, st: CS::New, polled: false }); Ok(V::Coro(m.coros.len() - 1)) }
                    AggregateKind::RawPtr(..) => Ok(f.into_iter().next().unwrap()),
                    o => bad(format!("aggregate {:?}", o)),
                }
            }
            o => bad(format!("rvalue {:?}", o)),
        }
    }
    fn binop(&self, m: &mut M<'tcx>, op: BinOp, a: V<'tcx>, b: V<'tcx>, dty: Ty<'tcx>) -> Res<V<'tcx>> {
        use BinOp::*;
        let conc = |v: &V<'tcx>| -> Option<u128> { match v { V::Int(i) => Some(*i), V::Sym(n, _) => match m.refine.get(n) { Some(R::Int(i)) => Some(*i), _ => None }, V::IsSome(n) => match m.refine.get(n) { Some(R::Var(v)) => Some((*v == 1) as u128), _ => None }, _ => None } };
        let boolish = |v: &V<'tcx>| matches!(v, V::IsSome(_)) || matches!(v, V::Sym(_, t) if t.is_bool());
        if boolish(&a) { self.resolve_bool(m, &a)?; } if boolish(&b) { self.resolve_bool(m, &b)?; }
        if let (Some(x), Some(y)) = (conc(&a), conc(&b)) {
            let r = match op { Eq => (x == y) as u128, Ne => (x != y) as u128, Lt => (x < y) as u128, Le => (x <= y) as u128, Gt => (x > y) as u128, Ge => (x >= y) as u128, BitAnd => x & y, BitOr => x | y, BitXor => x ^ y, Add | AddUnchecked => x.wrapping_add(y), Sub | SubUnchecked => x.wrapping_sub(y),
                AddWithOverflow => return Ok(V::Agg(dty, 0, vec![V::Int(x.wrapping_add(y)), V::Int(0)])), SubWithOverflow => return Ok(V::Agg(dty, 0, vec![V::Int(x.wrapping_sub(y)), V::Int((x < y) as u128)])), _ => return Ok(V::Sym(format!("{:?}({},{})", op, x, y).into(), dty)) };
            return Ok(V::Int(r));
        }
        if let (V::Ptr(x), V::Ptr(y)) = (&a, &b) { match op { Eq => return Ok(V::Int((x == y) as u128)), Ne => return Ok(V::Int((x != y) as u128)), _ => {} } }
        // null and alignment checks: references are never null and always aligned
        match (&a, &b) {
            (V::Ptr(_) | V::Boxed(_) | V::RcP(_), V::Int(0)) | (V::Int(0), V::Ptr(_) | V::Boxed(_) | V::RcP(_)) => match op { Eq => return Ok(V::Int(0)), Ne => return Ok(V::Int(1)), _ => {} },
            (V::Ptr(_), V::Int(_)) if op == BitAnd => return Ok(V::Int(0)),
            _ => {}
        }
        // one name per comparison, whichever way round it is written: b > a is a < b, a <= b is !(b < a)
        if matches!(op, Lt | Le | Gt | Ge) && [&a, &b].iter().all(|v| match v { V::Ptr(_) => true, V::Sym(_, t) => !t.is_floating_point(), _ => false }) {
            let (x, y) = if matches!(op, Lt | Ge) { (&a, &b) } else { (&b, &a) };
            let n: Name = format!("Lt({},{})", render::short(self, m, x), render::short(self, m, y)).into();
            if matches!(op, Lt | Gt) { return Ok(V::Sym(n, dty)); }
            let v = V::Sym(n, dty);
            return Ok(V::Int((self.resolve_bool(m, &v)? == false) as u128));
        }
        let n = format!("{:?}({},{})", op, render::short(self, m, &a), render::short(self, m, &b));
        if let ty::Tuple(ts) = dty.kind() { if ts.len() == 2 { return Ok(V::Agg(dty, 0, vec![V::Sym(n.into(), ts[0]), V::Int(0)])); } }
        Ok(V::Sym(n.into(), dty))
    }
    /// A freshly assembled container: tie its status flag to the content lock next to it.
    pub fn link_new(&self, m: &mut M<'tcx>, v: &V<'tcx>) {
        if let V::Agg(t, _, f) = v { if let Some((li, ai)) = self.proxy_shape(*t) { if let (V::Lock(l), V::Atom(a)) = (&f[li as usize], &f[ai as usize]) { m.locks[*l].atom = Some(*a); m.atoms[*a].lock = Some(*l); } } }
    }
    /// A lazy container by shape: an ADT of this crate with an atomic flag and a lock over `Option<payload>`.
    pub fn proxy_shape(&self, t: Ty<'tcx>) -> Option<(u32, u32)> {
        let ty::Adt(a, args) = t.kind() else { return None };
        if !a.did().is_local() || !a.is_struct() { return None; }
        let (mut li, mut ai) = (None, None);
        for (i, f) in a.non_enum_variant().fields.iter().enumerate() {
            let ft = self.norm(args, self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip());
            if let ty::Adt(fa, fargs) = ft.kind() {
                let p = self.path(fa.did());
                if p.contains("sync::atomic::Atomic") { ai = Some(i as u32); }
                if models::lock_kind(&p).is_some() { if let Some(c) = fargs.types().last() { if let ty::Adt(o, oa) = c.kind() { if self.path(o.did()) == "core::option::Option" && !args.types().any(|x| x == oa.type_at(0)) { li = Some(i as u32); } } } }
            }
        }
        Some((li?, ai?))
    }

    // ---------- stepping ----------
    pub fn step(&self, m: &mut M<'tcx>) -> Flow<'tcx> {
        m.steps += 1;
        if m.steps > 60000 { return Flow::Exit(Exit::Bad("step limit".into())); }
        match self.step_inner(m) {
            Ok(f) => f,
            Err(Stop::Fork(mut opts)) => {
                // within a stated bound on list lengths, the iterator is exhausted after that many items
                if let Some(n) = *UNROLL { if opts.iter().any(|(k, r)| k.starts_with("next(") && k.matches("next(").count() > n && matches!(r, R::Var(0))) { opts.retain(|(_, r)| matches!(r, R::Var(0))); } }
                let mut out = vec![];
                for (n, r) in opts { let mut c = m.clone(); c.refine.insert(n, r); out.push(c); }
                Flow::Split(out)
            }
            Err(Stop::Dead) => Flow::Exit(Exit::Dead),
            Err(Stop::Bad(s)) => { let f = m.frames.last(); let w = f.map_or(String::new(), |f| format!(" in {} {:?}[{}]", self.path(f.def), f.bb, f.si)); Flow::Exit(Exit::Bad(format!("{}{}", s, w))) }
        }
    }
    fn step_inner(&self, m: &mut M<'tcx>) -> Res<Flow<'tcx>> {
        let fr = m.frames.last_mut().unwrap();
        let Some(body) = fr.body.clone() else {
            // drop work list
            match fr.drops.pop() { None => { m.frames.pop(); }, Some(v) => self.drop_one(m, v)? }
            return Ok(Flow::Go);
        };
        let bbd = &body.basic_blocks[fr.bb];
        let args = fr.args;
        if fr.si < bbd.statements.len() {
            let st = &bbd.statements[fr.si];
            match &st.kind {
                StatementKind::Assign(b) => {
                    let dty = self.norm(args, b.0.ty(&body.local_decls, self.tcx).ty);
                    let snap = matches!(b.1, Rvalue::BinaryOp(..) | Rvalue::UnaryOp(..)).then(|| m.clone());
                    let v = match self.rvalue(m, &b.1, dty) { Ok(v) => v, Err(Stop::Fork(o)) => { if let Some(s) = snap { *m = s; } return Err(Stop::Fork(o)); } Err(e) => return Err(e) };
                    let pl = self.place(m, &b.0)?;
                    self.put_or_build(m, &pl, v, &body, &b.0, args)?;
                }
                StatementKind::SetDiscriminant { .. } => return bad("SetDiscriminant"),
                _ => {}
            }
            m.frames.last_mut().unwrap().si += 1;
            return Ok(Flow::Go);
        }
        self.term(m, &body, bbd.terminator())
    }
    fn put_or_build(&self, m: &mut M<'tcx>, pl: &Pl, v: V<'tcx>, body: &Body<'tcx>, p: &Place<'tcx>, args: GenericArgsRef<'tcx>) -> Res<()> {
        // field-wise initialisation of an uninitialised struct/tuple local
        if !pl.p.is_empty() {
            let mut k = 0;
            while k < pl.p.len() {
                let pre = Pl { a: pl.a, p: pl.p[..k].to_vec() };
                if let Some(V::Uninit) = self.walk(m, &pre) {
                    if k == 0 && p.projection.iter().all(|e| !matches!(e, ProjectionElem::Deref)) {
                        let t = self.norm(args, body.local_decls[p.local].ty);
                        let n = match t.kind() { ty::Adt(a, _) if a.is_struct() => a.non_enum_variant().fields.len(), ty::Tuple(t) => t.len(), ty::Coroutine(_, a) => a.as_coroutine().upvar_tys().len(), ty::Closure(_, a) => a.as_closure().upvar_tys().len(), _ => return bad("partial init") };
                        m.mem[pl.a] = V::Agg(t, 0, vec![V::Uninit; n]);
                    } else { break; }
                }
                k += 1;
            }
        }
        self.put(m, pl, v)
    }
    pub fn goto(&self, m: &mut M<'tcx>, t: BasicBlock) { let f = m.frames.last_mut().unwrap(); f.bb = t; f.si = 0; }
    fn term(&self, m: &mut M<'tcx>, body: &Rc<Body<'tcx>>, t: &Terminator<'tcx>) -> Res<Flow<'tcx>> {
        let args = m.frames.last().unwrap().args;
        match &t.kind {
            TerminatorKind::Goto { target, .. } => self.goto(m, *target),
            TerminatorKind::FalseEdge { real_target, .. } => self.goto(m, *real_target),
            TerminatorKind::FalseUnwind { real_target, .. } => self.goto(m, *real_target),
            TerminatorKind::Assert { target, .. } => self.goto(m, *target),
            TerminatorKind::Unreachable => return Err(Stop::Dead),
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = match discr { Operand::Copy(p) | Operand::Move(p) => { let pl = self.place(m, p)?; self.get(m, &pl)? } o => self.operand(m, o)? };
                let i = match &v {
                    V::Int(i) => *i,
                    V::IsSome(_) => self.resolve_bool(m, &v)? as u128,
                    V::Sym(n, ty) => match m.refine.get(n) {
                        Some(R::Int(i)) => *i,
                        Some(R::NotInt(_)) => { self.goto(m, targets.otherwise()); return Ok(Flow::Go); }
                        _ => {
                            if ty.is_bool() { self.resolve_bool(m, &v)? as u128 } else {
                                let mut o: Vec<(Name, R)> = targets.iter().map(|(x, _)| (n.clone(), R::Int(x))).collect();
                                o.push((n.clone(), R::NotInt(targets.iter().map(|(x, _)| x).collect())));
                                return Err(Stop::Fork(o));
                            }
                        }
                    },
                    o => return bad(format!("switch on {:?}", o)),
                };
                self.goto(m, targets.target_for_value(i));
            }
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let pl = self.place(m, place);
                self.goto(m, *target);
                m.frames.last_mut().unwrap().unwind = *unwind;
                if let Ok(pl) = pl {
                    let v = match self.walk(m, &pl) { Some(v) => v.clone(), None => V::Uninit };
                    // dropping is conditional on not having been moved out
                    if !matches!(v, V::Uninit | V::Ptr(_) | V::Int(_) | V::Str(_)) {
                        if let Ok(s) = self.slot(m, &pl) { *s = V::Uninit; }
                        self.push_drops(m, vec![v]);
                    }
                }
            }
            TerminatorKind::UnwindResume => { m.frames.pop(); return self.unwind(m); }
            TerminatorKind::UnwindTerminate(_) => return Ok(Flow::Exit(Exit::Bad("abort".into()))),
            TerminatorKind::Return => return self.ret(m, body),
            TerminatorKind::Yield { drop, resume, .. } => {
                if !m.cancelling { self.goto(m, *resume); return Ok(Flow::Go); }
                let f = m.frames.last().unwrap();
                match f.cont {
                    Cont::RootCoro => { m.cancelling = false; m.events.push(obj(vec![("e", "cancelled".into())])); match drop { Some(d) => { let d = *d; self.goto(m, d) } None => return Ok(Flow::Exit(Exit::Cancel)) } }
                    Cont::Poll { coro } => {
                        let mut fr = m.frames.pop().unwrap();
                        match drop { Some(d) => { fr.bb = *d; fr.si = 0; m.coros[coro].st = CS::Suspended(Box::new(fr)); } None => m.coros[coro].st = CS::Done }
                        self.finish_poll(m, None)?;
                    }
                    _ => return bad("yield outside a coroutine"),
                }
            }
            TerminatorKind::CoroutineDrop => {
                let f = m.frames.pop().unwrap();
                if matches!(f.cont, Cont::RootCoro) { return Ok(Flow::Exit(Exit::Cancel)); }
            }
            TerminatorKind::Call { func, args: cargs, destination, target, unwind, .. } => {
                let dest = self.place(m, destination)?;
                let dty = self.norm(args, destination.ty(&body.local_decls, self.tcx).ty);
                { let f = m.frames.last_mut().unwrap(); f.dest = Some(dest); f.dest_ty = Some(dty); f.target = *target; f.unwind = *unwind; }
                let snap = m.clone();
                let fv = self.operand(m, func)?;
                let mut av = vec![]; let mut at = vec![];
                for a in cargs.iter() { at.push(self.norm(args, a.node.ty(&body.local_decls, self.tcx))); av.push(self.operand(m, &a.node)?); }
                match models::call(self, m, fv, av, at) {
                    Err(Stop::Fork(o)) => { *m = snap; return Err(Stop::Fork(o)); }
                    r => return r,
                }
            }
            o => return bad(format!("terminator {:?}", o)),
        }
        Ok(Flow::Go)
    }
    /// Deliver a call result into the top frame's pending destination and continue there.
    pub fn deliver(&self, m: &mut M<'tcx>, v: V<'tcx>) -> Res<Flow<'tcx>> {
        let f = m.frames.last().unwrap();
        let (d, t) = (f.dest.clone(), f.target);
        if let Some(d) = d { self.put(m, &d, v)?; }
        match t { Some(t) => { self.goto(m, t); Ok(Flow::Go) } None => Err(Stop::Dead) }
    }
    pub fn poll_ty(&self, m: &M<'tcx>) -> Option<Ty<'tcx>> { m.frames.last().and_then(|f| f.dest_ty) }
    /// Result of a poll call pending in the top frame: Some(v) = Ready(v), None = Pending.
    pub fn finish_poll(&self, m: &mut M<'tcx>, v: Option<V<'tcx>>) -> Res<Flow<'tcx>> {
        let t = self.poll_ty(m).unwrap();
        let r = match v { Some(v) => V::Agg(t, 0, vec![v]), None => V::Agg(t, 1, vec![]) };
        self.deliver(m, r)
    }
    fn ret(&self, m: &mut M<'tcx>, body: &Rc<Body<'tcx>>) -> Res<Flow<'tcx>> {
        let f = m.frames.last().unwrap();
        let rty = self.norm(f.args, body.local_decls[RETURN_PLACE].ty);
        let a = f.locals[0];
        let v = std::mem::replace(&mut m.mem[a], V::Uninit);
        let v = if matches!(v, V::Uninit) && rty.is_unit() { self.unit() } else { v };
        let cont = f.cont.clone();
        m.frames.pop();
        match cont {
            Cont::SubRet => { m.sub_ret = Some(v); return Ok(Flow::Go); }
            Cont::Ignore => return Ok(Flow::Go),
            Cont::Poll { coro } => { m.coros[coro].st = CS::Done; return self.finish_poll(m, Some(v)); }
            Cont::GuardMap { guard, try_: Some(()) } => {
                let V::Agg(t, var, f) = &v else { return bad("partial guard map") };
                let yes = if self.path(t.ty_adt_def().unwrap().did()).ends_with("Option") { *var == 1 } else { *var == 0 };
                if yes { let Some(pl) = self.deref_val(m, &f[0].clone(), true)? else { return bad("guard map") }; m.guards[guard].target = pl; }
                let rt = m.frames.last().unwrap().dest_ty.unwrap();
                return self.deliver(m, V::Agg(rt, !yes as u32, vec![V::Guard(guard)]));
            }
            Cont::GuardMap { guard, .. } => { let Some(pl) = self.deref_val(m, &v, true)? else { return bad("guard map") }; m.guards[guard].target = pl; return self.deliver(m, V::Guard(guard)); }
            Cont::NewCyclic { alloc } => { m.mem[alloc] = v; return self.deliver(m, V::RcP(alloc)); }
            Cont::EqNot => { let b = self.resolve_bool(m, &v)?; return self.deliver(m, V::Int(!b as u128)); }
            Cont::RootCoro | Cont::None => {}
        }
        if m.frames.is_empty() {
            if !m.driven { if let Some(c) = self.as_coro(m, &v) { return self.drive(m, c); } }
            return Ok(Flow::Exit(Exit::Return(v, rty)));
        }
        self.deliver(m, v)
    }
    pub fn as_coro(&self, m: &M<'tcx>, v: &V<'tcx>) -> Option<usize> { match v { V::Coro(c) => Some(*c), V::Boxed(a) => self.as_coro(m, &m.mem[*a]), V::Ptr(p) => self.walk(m, p).and_then(|v| self.as_coro(m, v)), V::Agg(t, _, f) if f.len() == 1 && t.is_adt() => self.as_coro(m, &f[0]), _ => None } }
    pub fn start_coro(&self, m: &mut M<'tcx>, c: usize, cont: Cont) -> Res<()> {
        let (d, a, t, up) = { let x = &mut m.coros[c]; x.polled = true; x.st = CS::Running; (x.def, x.args, x.ty, std::mem::take(&mut x.up)) };
        let Some(b) = self.body(d) else { return bad("no coroutine body") };
        let me = V::Agg(t, 0, up);
        self.push(m, b, d, a, vec![me, V::Sym("ctx".into(), self.tcx.types.unit)], cont);
        Ok(())
    }
    fn drive(&self, m: &mut M<'tcx>, c: usize) -> Res<Flow<'tcx>> {
        m.driven = true;
        m.events.push(obj(vec![("e", "polled_from_here".into())]));
        self.start_coro(m, c, Cont::RootCoro)?; Ok(Flow::Go)
    }
    pub fn unwind(&self, m: &mut M<'tcx>) -> Res<Flow<'tcx>> {
        loop {
            let Some(f) = m.frames.last() else { return Ok(Flow::Exit(Exit::Panic)) };
            if f.body.is_none() { m.frames.pop(); continue; }
            match f.unwind {
                UnwindAction::Cleanup(b) => { m.frames.last_mut().unwrap().in_cleanup = true; self.goto(m, b); return Ok(Flow::Go); }
                UnwindAction::Continue => {
                    let f = m.frames.pop().unwrap();
                    match f.cont { Cont::Poll { coro } => m.coros[coro].st = CS::Done, Cont::SubRet => return bad("panic in constant"), _ => {} }
                }
                _ => return Ok(Flow::Exit(Exit::Bad("abort on unwind".into()))),
            }
        }
    }
    /// Start unwinding at a call in the top frame; `carry` are values owned by the aborted callee.
    pub fn panic(&self, m: &mut M<'tcx>, why: &str, carry: Vec<V<'tcx>>) -> Res<Flow<'tcx>> {
        m.events.push(obj(vec![("e", "panic".into()), ("why", why.into()), ("held", models::held(m))]));
        for v in carry { self.drop_now(m, v)?; }
        self.unwind(m)
    }
    pub fn drop_now(&self, m: &mut M<'tcx>, v: V<'tcx>) -> Res<()> {
        match v {
            V::Guard(g) => models::release(self, m, g),
            V::Agg(_, _, f) => { for x in f { self.drop_now(m, x)?; } Ok(()) }
            V::Boxed(a) => { let x = std::mem::replace(&mut m.mem[a], V::Uninit); self.drop_now(m, x) }
            _ => Ok(()),
        }
    }
    fn drop_one(&self, m: &mut M<'tcx>, v: V<'tcx>) -> Res<()> {
        match v {
            V::Guard(g) => models::release(self, m, g)?,
            V::Agg(t, var, f) => {
                if let ty::Adt(a, args) = t.kind() {
                    let p = self.path(a.did());
                    if p.ends_with("ManuallyDrop") || p.ends_with("MaybeUninit") { return Ok(()); }
                    if a.did().is_local() { if let Some(dt) = self.tcx.adt_destructor(a.did()) {
                        if let Some(b) = self.body(dt.did) {
                            let al = self.alloc(m, V::Agg(t, var, f), None, false);
                            // run Drop::drop, then the fields
                            let me = V::Ptr(Pl::root(al));
                            m.frames.last_mut().unwrap().drops.push(V::Boxed(al | (1 << 60)));
                            self.push(m, b, dt.did, *args, vec![me], Cont::Ignore);
                            return Ok(());
                        }
                    } }
                }
                let d = &mut m.frames.last_mut().unwrap().drops;
                for x in f.into_iter().rev() { if !matches!(x, V::Uninit | V::Int(_) | V::Ptr(_) | V::Str(_)) { d.push(x); } }
            }
            V::Boxed(a) if a & (1 << 60) != 0 => { let a = a & !(1 << 60); let x = std::mem::replace(&mut m.mem[a], V::Uninit); if let V::Agg(_, _, f) = x { let d = &mut m.frames.last_mut().unwrap().drops; for x in f.into_iter().rev() { d.push(x); } } }
            V::Boxed(a) => { let x = std::mem::replace(&mut m.mem[a], V::Uninit); m.frames.last_mut().unwrap().drops.push(x); }
            V::Coro(c) => {
                match std::mem::replace(&mut m.coros[c].st, CS::Done) {
                    CS::New => { let up = std::mem::take(&mut m.coros[c].up); let n = self.path(m.coros[c].def); m.events.push(obj(vec![("e", "drop_unpolled".into()), ("what", n.into())])); m.frames.last_mut().unwrap().drops.extend(up.into_iter().rev()); }
                    CS::Suspended(mut fr) => { fr.cont = Cont::Ignore; m.frames.push(*fr); }
                    _ => {}
                }
            }
            V::Leaf(l) => { let x = &m.leafs[l]; if !x.polled { let n = m.locks[x.lock].name.to_string(); m.events.push(obj(vec![("e", "drop_unpolled".into()), ("what", format!("lock future of {}", n).into())])); } }
            V::Sym(n, t) => { if n.contains('#') && self.is_future(t) && !m.polled.contains(&n) { m.events.push(obj(vec![("e", "drop_unpolled".into()), ("what", n.to_string().into())])); } }
            V::Lock(l) => { let a = m.locks[l].content; let x = std::mem::replace(&mut m.mem[a], V::Uninit); m.frames.last_mut().unwrap().drops.push(x); }
            _ => {}
        }
        Ok(())
    }
    pub fn is_future(&self, t: Ty<'tcx>) -> bool {
        match t.kind() { ty::Coroutine(..) => true, ty::Adt(a, args) if a.is_box() || self.path(a.did()) == "core::pin::Pin" => args.types().next().is_some_and(|t| self.is_future(t)), ty::Dynamic(d, _) => d.principal_def_id().is_some_and(|p| Some(p) == self.tcx.lang_items().future_trait()), _ => false }
    }
    pub fn call_body(&self, m: &mut M<'tcx>, d: DefId, args: GenericArgsRef<'tcx>, av: Vec<V<'tcx>>, cont: Cont) -> Res<bool> {
        if m.frames.len() > 60 { return bad("inline depth"); }
        let Some(b) = self.body(d) else { return Ok(false) };
        let mut av = av;
        if b.spread_arg.is_some() && av.len() != b.arg_count { return bad("spread arg"); }
        if av.len() != b.arg_count { return bad(format!("arg count of {}: {} vs {}", self.path(d), av.len(), b.arg_count)); }
        if b.arg_count == 0 { av.clear(); }
        self.push(m, b, d, args, av, cont); Ok(true)
    }
    pub fn resolve(&self, d: DefId, args: GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        match Instance::try_resolve(self.tcx, self.env, d, args) { Ok(Some(i)) => Some(i), _ => None }
    }
    pub fn inst_item(&self, i: &Instance<'tcx>) -> Option<DefId> { match i.def { InstanceKind::Item(d) => Some(d), _ => None } }
}
fn int_bits(t: Ty<'_>) -> Option<u64> { match t.kind() { ty::Uint(u) => Some(u.bit_width().unwrap_or(64)), ty::Int(u) => Some(u.bit_width().unwrap_or(64)), _ => None } }

/// Explore all paths of `m`; each finished path is handed to `f`.
pub static UNROLL: std::sync::LazyLock<Option<usize>> = std::sync::LazyLock::new(|| std::env::var("FXD_UNROLL").ok().and_then(|x| x.parse().ok()));
pub fn explore<'tcx>(i: &I<'_, 'tcx>, m: M<'tcx>, limit: usize, f: &mut dyn FnMut(M<'tcx>, Exit<'tcx>)) -> bool {
    let mut work = vec![m]; let mut done = 0; 
    while let Some(mut m) = work.pop() {
        loop { match i.step(&mut m) {
            Flow::Go => {}
            Flow::Split(v) => { work.extend(v.into_iter().rev()); break; }
            Flow::Exit(Exit::Dead) => break,
            Flow::Exit(e) => { done += 1; f(m, e); break; }
        } }
        if done > limit { return false; }
    }
    true
}
pub fn new_m<'tcx>() -> M<'tcx> { M { mem: vec![], meta: vec![], frames: vec![], locks: vec![], atoms: vec![], guards: vec![], leafs: vec![], coros: vec![], refine: BTreeMap::new(), fresh: BTreeMap::new(), events: vec![], polled: vec![], objs: BTreeMap::new(), cancelling: false, steps: 0, sub_ret: None, roots: vec![], driven: false, notes: vec![] } }

pub fn run_all<'tcx>(tcx: TyCtxt<'tcx>, b: &Bodies<'tcx>, scope: &str) -> J {
    let mut out = vec![];
    let extra = std::env::var("FXD_EXTRA").unwrap_or_default();
    let only = std::env::var("FXD_ONLY").unwrap_or_default();
    let mut ids: Vec<_> = b.main.keys().copied().collect();
    ids.sort_by_key(|d| tcx.def_path_str(d.to_def_id()));
    for d in ids {
        let did = d.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { continue; }
        let p = crate::facts::path(tcx, did);
        let sc = crate::in_scope(tcx, did, scope) || (!extra.is_empty() && extra.split(',').any(|e| p.contains(e)));
        if !sc || (!only.is_empty() && !p.contains(&only)) || p.contains("opq::") || p.contains("serde_core::") || p.contains("serde::") { continue; }
        let env = ty::TypingEnv::post_analysis(tcx, did);
        let i = I { tcx, b, env, ext: Default::default() };
        if i.is_user_fn(did) { continue; }
        out.push(run_one(&i, did, &p));
    }
    J::A(out)
}
pub fn run_one<'tcx>(i: &I<'_, 'tcx>, did: DefId, p: &str) -> J {
    let tcx = i.tcx;
    let body = i.body(did).unwrap();
    let args = ty::GenericArgs::identity_for_item(tcx, did);
    let args = tcx.erase_and_anonymize_regions(args);
    let mut m = new_m();
    let mut av = vec![];
    for k in 1..=body.arg_count {
        let l = Local::from_usize(k);
        let nm = body.var_debug_info.iter().find(|v| matches!(v.value, VarDebugInfoContents::Place(pl) if pl.local == l && pl.projection.is_empty()) && v.argument_index.is_some()).map_or(format!("arg{}", k), |v| v.name.to_string());
        let nm = if nm == "self" { nm } else { format!("arg{}", k) };
        let t = i.norm(args, body.local_decls[l].ty);
        av.push(root_arg(i, &mut m, &nm.into(), t));
    }
    i.push(&mut m, body, did, args, av, Cont::None);
    let mut outs = vec![];
    let ok = explore(i, m, 3000, &mut |mut m, e| outs.push(render::outcome(i, &mut m, e)));
    obj(vec![("path", p.into()), ("key", i.fkey(did).into()), ("complete", ok.into()), ("outcomes", J::A(outs))])
}
pub fn root_arg<'tcx>(i: &I<'_, 'tcx>, m: &mut M<'tcx>, nm: &Name, t: Ty<'tcx>) -> V<'tcx> {
    match t.kind() {
        ty::Ref(_, inner, mu) => { let a = i.alloc(m, V::Sym(nm.clone(), *inner), Some(nm.clone()), !mu.is_mut()); m.meta[a].root = true; m.roots.push((nm.clone(), a, *inner)); V::Ptr(Pl::root(a)) }
        _ => V::Sym(nm.clone(), t),
    }
}
