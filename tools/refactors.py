#!/usr/bin/env python3
"""Development aid: edits of fieldx that keep its behaviour, on which every check has to stay quiet.
usage: refactors.py [name...] [-v]   (works in /tmp/refrepo and /tmp/refbuild)"""
import os, subprocess, sys, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, B = '/tmp/refrepo', '/tmp/refbuild'
SP, AP, SL, AL = 'fieldx/src/sync/fxproxy.rs', 'fieldx/src/async/fxproxy.rs', 'fieldx/src/sync/fxlock.rs', 'fieldx/src/async/fxlock.rs'
PL, SY, CG, CT, SE = 'fieldx_derive/src/codegen/plain.rs', 'fieldx_derive/src/codegen/sync.rs', 'fieldx_derive/src/codegen.rs', 'fieldx_derive/src/codegen/codegen_trait.rs', 'fieldx_derive/src/codegen/serde.rs'
INIT = '''        Ok(if (*guard).is_none() {
            let mut wguard = RwLockUpgradableReadGuard::upgrade(guard);
            // Still uninitialized? Means no other thread took care of it yet.
            if wguard.is_none() {
                // No value has been set yet
                match *self.builder.read() {
                    Some(ref builder_cb) => {
                        *wguard = Some((*builder_cb).invoke(owner)?);
                        self.is_set_raw().store(true, Ordering::SeqCst);
                    }
                    None => panic!("Builder is not set"),
                }
            }
            RwLockWriteGuard::downgrade_to_upgradable(wguard)
        }
        else {
            guard
        })
'''
R = {}


def ref(name, *edits):
    R[name] = edits


ref('sync-init-early-return', (SP, INIT, '''        if guard.is_some() {
            return Ok(guard);
        }
        let mut wguard = RwLockUpgradableReadGuard::upgrade(guard);
        if wguard.is_none() {
            let bguard = self.builder.read();
            let builder = bguard.as_ref().expect("Builder is not set");
            let value = builder.invoke(owner)?;
            *wguard = Some(value);
            drop(bguard);
            self.is_set_raw().store(true, Ordering::SeqCst);
        }
        Ok(RwLockWriteGuard::downgrade_to_upgradable(wguard))
'''))
ref('sync-init-helper', (SP, INIT, '''        Ok(match *guard {
            None => {
                let mut wguard = RwLockUpgradableReadGuard::upgrade(guard);
                self.fill(&mut wguard, owner)?;
                RwLockWriteGuard::downgrade_to_upgradable(wguard)
            }
            Some(_) => guard,
        })
    }

    fn fill(&self, slot: &mut Option<B::Value>, owner: &B::Owner) -> Result<(), B::Error> {
        if slot.is_some() {
            return Ok(());
        }
        let built = match self.builder.read().as_ref() {
            Some(cb) => cb.invoke(owner),
            None => panic!("Builder is not set"),
        };
        match built {
            Ok(v) => {
                slot.replace(v);
                self.is_set.store(true, Ordering::SeqCst);
                Ok(())
            }
            Err(e) => Err(e),
        }
'''))
ref('sync-init-insert', (SP, '*wguard = Some((*builder_cb).invoke(owner)?);', 'let v = (*builder_cb).invoke(owner)?;\n                        let _ = wguard.insert(v);'))
ref('sync-init-map', (SP, '''                        *wguard = Some((*builder_cb).invoke(owner)?);
                        self.is_set_raw().store(true, Ordering::SeqCst);
''', '''                        builder_cb.invoke(owner).map(|v| {
                            *wguard = Some(v);
                            self.is_set_raw().store(true, Ordering::SeqCst);
                        })?;
'''))
ref('sync-init-let-else', (SP, INIT, '''        let None = *guard
        else {
            return Ok(guard);
        };
        let mut wguard = RwLockUpgradableReadGuard::upgrade(guard);
        while wguard.is_none() {
            let builder = self.builder.read();
            let Some(ref cb) = *builder
            else {
                panic!("Builder is not set");
            };
            *wguard = Some(cb.invoke(owner)?);
            self.is_set_raw().store(true, Ordering::SeqCst);
        }
        Ok(RwLockWriteGuard::downgrade_to_upgradable(wguard))
'''))
ref('sync-clear-mem', (SP, '        wguard.take()\n', '        std::mem::take(&mut **wguard)\n'))
ref('sync-clear-replace', (SP, '        wguard.take()\n', '        std::mem::replace(&mut **wguard, None)\n'))
ref('sync-clear-order', (SP, '''        self.is_set_raw().store(false, Ordering::SeqCst);
        wguard.take()
''', '''        let old = wguard.take();
        self.is_set.store(false, Ordering::SeqCst);
        old
'''))
ref('sync-clear-swap', (SP, '''        self.is_set_raw().store(false, Ordering::SeqCst);
        wguard.take()
''', '''        self.is_set_raw().swap(false, Ordering::SeqCst);
        let mut old = None;
        std::mem::swap(&mut **wguard, &mut old);
        old
'''))
ref('sync-clear-scope', (SP, '''        let mut wguard = self.value.write();
        self.clear_with_lock(&mut wguard)
    }
''', '''        self.clear_with_lock(&mut self.value.write())
    }
'''))
ref('sync-clear-via-write', (SP, '''        let mut wguard = self.value.write();
        self.clear_with_lock(&mut wguard)
    }
''', '''        self.write().clear()
    }
'''))
ref('sync-store-order', (SP, '''        self.fxproxy.is_set_raw().store(true, Ordering::Release);
        self.lock.borrow_mut().replace(value)
''', '''        let old = std::mem::replace(&mut **self.lock.get_mut(), Some(value));
        self.fxproxy.is_set_raw().store(true, Ordering::SeqCst);
        old
'''))
ref('sync-read-steps', (SP, '''        RwLockReadGuard::map(
            RwLockUpgradableReadGuard::downgrade(self.read_or_init(owner).unwrap()),
            |data: &Option<B::Value>| data.as_ref().unwrap(),
        )
''', '''        let upgradable = match self.read_or_init(owner) {
            Ok(guard) => guard,
            Err(_) => unreachable!("infallible builder failed"),
        };
        let guard = RwLockUpgradableReadGuard::downgrade(upgradable);
        RwLockReadGuard::map(guard, Self::project)
    }

    fn project(data: &Option<B::Value>) -> &B::Value {
        match data {
            Some(v) => v,
            None => unreachable!(),
        }
'''))
ref('sync-read-via-try', (SP, '''        RwLockReadGuard::map(
            RwLockUpgradableReadGuard::downgrade(self.read_or_init(owner).unwrap()),
            |data: &Option<B::Value>| data.as_ref().unwrap(),
        )
''', '''        self.try_read(owner).unwrap()
'''), (SP, '''        RwLockWriteGuard::map(
            RwLockUpgradableReadGuard::upgrade(self.read_or_init(owner).unwrap()),
            |data: &mut Option<B::Value>| data.as_mut().unwrap(),
        )
''', '''        self.try_read_mut(owner).unwrap()
'''))
ref('sync-try-read-map', (SP, '''        Ok(RwLockReadGuard::map(
            RwLockUpgradableReadGuard::downgrade(self.read_or_init(owner)?),
            |data: &Option<B::Value>| data.as_ref().unwrap(),
        ))
''', '''        self.read_or_init(owner)
            .map(RwLockUpgradableReadGuard::downgrade)
            .map(|guard| RwLockReadGuard::map(guard, |data| data.as_ref().expect("value is set")))
'''))
ref('sync-try-read-and-then', (SP, '''        Ok(RwLockReadGuard::map(
            RwLockUpgradableReadGuard::downgrade(self.read_or_init(owner)?),
            |data: &Option<B::Value>| data.as_ref().unwrap(),
        ))
''', '''        self.read_or_init(owner).and_then(|guard| {
            let guard = RwLockUpgradableReadGuard::downgrade(guard);
            Ok(RwLockReadGuard::map(guard, |data| data.as_ref().unwrap()))
        })
'''))
ref('sync-clone-steps', (SP, '''        let vguard = self.value.read();
        let bguard = self.builder.read();
        Self {
            value:   RwLock::new((*vguard).as_ref().cloned()),
            is_set:  AtomicBool::new(self.is_set()),
            builder: RwLock::new(bguard.clone()),
        }
''', '''        let guard = self.value.read();
        let value = guard.clone();
        let is_set = value.is_some();
        let builder = self.builder.read().clone();
        Self {
            value:   RwLock::new(value),
            is_set:  AtomicBool::new(is_set),
            builder: RwLock::new(builder),
        }
'''))
ref('sync-clone-map', (SP, '(*vguard).as_ref().cloned()', 'vguard.as_ref().map(|v| v.clone())'))
ref('sync-lock-clone', (SL, '''        let vguard = self.0.read();
        Self(RwLock::new((*vguard).clone()))
''', '''        Self::new(T::clone(&*self.0.read()))
'''))
ref('sync-lock-from', (SL, '''    fn from(value: T) -> Self {
        Self(RwLock::new(value))
''', '''    fn from(value: T) -> Self {
        Self::new(value)
'''))
AINIT = '''        let mut guard = self.value.write().await;
        if (*guard).is_none() {
            // No value has been set yet
            match *self.builder.read().await {
                Some(ref builder_cb) => {
                    *guard = Some((*builder_cb).invoke(owner).await?);
                    self.is_set_raw().store(true, Ordering::SeqCst);
                }
                None => panic!("Builder is not set"),
            }
        }
        Ok(guard)
'''
ref('async-init-early-return', (AP, AINIT, '''        let mut guard = self.value.write().await;
        if guard.is_some() {
            return Ok(guard);
        }
        let value = {
            let bguard = self.builder.read().await;
            match bguard.as_ref() {
                Some(cb) => cb.invoke(owner).await?,
                None => panic!("Builder is not set"),
            }
        };
        guard.replace(value);
        self.is_set_raw().store(true, Ordering::SeqCst);
        Ok(guard)
'''))
ref('async-init-helper', (AP, AINIT, '''        let mut guard = self.value.write().await;
        if let None = *guard {
            *guard = Some(self.build(owner).await?);
            self.is_set_raw().store(true, Ordering::SeqCst);
        }
        Ok(guard)
    }

    async fn build(&self, owner: &B::Owner) -> Result<B::Value, B::Error> {
        let bguard = self.builder.read().await;
        let Some(cb) = &*bguard
        else {
            panic!("Builder is not set");
        };
        cb.invoke(owner).await
'''))
ref('async-read-steps', (AP, '''        RwLockReadGuard::map(
            RwLockWriteGuard::downgrade(self.read_or_init(owner).await.unwrap()),
            |data: &Option<B::Value>| data.as_ref().unwrap(),
        )
''', '''        let guard = self.read_or_init(owner).await;
        let guard = guard.unwrap().downgrade();
        RwLockReadGuard::map(guard, |data| match data {
            Some(v) => v,
            None => unreachable!(),
        })
'''))
ref('async-read-via-try', (AP, '''        RwLockReadGuard::map(
            RwLockWriteGuard::downgrade(self.read_or_init(owner).await.unwrap()),
            |data: &Option<B::Value>| data.as_ref().unwrap(),
        )
''', '''        self.try_read(owner).await.unwrap()
'''))
ref('async-clear', (AP, '''        let mut wguard = self.value.write().await;
        self.clear_with_lock(&mut wguard)
    }
''', '''        let guard = self.write().await;
        guard.clear()
    }
'''))
ref('async-try-map', (AP, '''        Ok(RwLockReadGuard::map(
            RwLockWriteGuard::downgrade(self.read_or_init(owner).await?),
            |data: &Option<B::Value>| data.as_ref().unwrap(),
        ))
''', '''        let guard = self.read_or_init(owner).await?;
        let guard = RwLockWriteGuard::downgrade(guard);
        Ok(RwLockReadGuard::try_map(guard, Option::as_ref).unwrap_or_else(|_| unreachable!()))
'''))
# expansions
ref('plain-set-lazy', (PL, '''                        let old = self.#ident.take();
                        let _ = self.#ident.set(value #into_tok);
                        old
''', '''                        let new = ::fieldx::OnceCell::with_value(value #into_tok);
                        ::std::mem::replace(&mut self.#ident, new).into_inner()
'''))
ref('plain-set-lazy-from', (PL, '''                        let old = self.#ident.take();
                        let _ = self.#ident.set(value #into_tok);
                        old
''', '''                        let mut other = ::fieldx::OnceCell::from(value #into_tok);
                        ::std::mem::swap(&mut self.#ident, &mut other);
                        other.take()
'''))
ref('plain-set-replace', (PL, 'self.#ident.replace(value #into_tok)\n                        }', '::std::mem::replace(&mut self.#ident, ::std::option::Option::Some(value #into_tok))\n                        }'))
ref('plain-set-direct', (PL, '::std::mem::replace(&mut self.#ident, value #into_tok)', 'let mut value = value #into_tok; ::std::mem::swap(&mut self.#ident, &mut value); value'))
ref('plain-clear-mem', (PL, '                    self.#ident.take()\n                }\n            ])', '                    let old = self.#ident.take();\n                    old\n                }\n            ])'))
ref('plain-pred', (PL, 'self.#ident.get().is_some()', '!self.#ident.get().is_none()'), (PL, 'self.#ident #borrow_tok .is_some()', '::std::matches!(*(&self.#ident) #borrow_tok, ::std::option::Option::Some(_))'))
ref('plain-getmut', (PL, '''                        self.#ident.#init_method( || #builder_self.#lazy_name() )#shortcut;
''', '''                        if self.#ident.get().is_none() {
                            let _ = self.#ident.#init_method( || #builder_self.#lazy_name() )#shortcut;
                        }
'''))
ref('plain-builder-match', (PL, '''                #field_ident: if self.#field_ident.is_some() {
                    ::fieldx::OnceCell::from(self.#field_ident.take().unwrap())
                }
                else {
                    #field_default
                }
''', '''                #field_ident: match self.#field_ident.take() {
                    ::std::option::Option::Some(v) => ::fieldx::OnceCell::from(v),
                    ::std::option::Option::None => #field_default,
                }
'''))
ref('plain-builder-map', (PL, '''                #field_ident: if self.#field_ident.is_some() {
                    ::fieldx::OnceCell::from(self.#field_ident.take().unwrap())
                }
                else {
                    #field_default
                }
''', '''                #field_ident: self.#field_ident.take().map_or_else(|| #field_default, ::fieldx::OnceCell::with_value)
'''))
ref('sync-acc-copy', (SY, '''                            let rlock = self.#ident.read() #await_call #shortcut;
                            (*rlock)#cmethod
''', '''                            let rlock = self.#ident.read() #await_call #shortcut;
                            let value = (*rlock)#cmethod;
                            drop(rlock);
                            value
'''))
ref('sync-acc-clone', (SY, 'quote_spanned![cc_span=> .as_ref().cloned()]', 'quote_spanned![cc_span=> .clone()]'))
ref('sync-acc-copied', (SY, 'quote_spanned![cc_span=> .as_ref().copied()]', 'quote_spanned![cc_span=> .as_ref().map(|v| *v)]'))
ref('sync-builder-default', (SY, 'quote_spanned! [span=> .or_else(|| ::std::option::Option::Some(#default))]', 'quote_spanned! [span=> .map_or_else(|| ::std::option::Option::Some(#default), ::std::option::Option::Some)]'))


def sh(c):
    return subprocess.run(c, shell=True, text=True, capture_output=True)



# ---- round 2
SY2, IA, VA, AH, SH, DA, NA, SV, BH = ('fieldx_derive/src/codegen/sync.rs', 'fieldx_derive/src/codegen/sync/impl_async.rs', 'fieldx_aux/src/value.rs', 'fieldx_aux/src/accessor_helper.rs', 'fieldx_aux/src/serde_helper.rs', 'fieldx_aux/src/default_arg.rs', 'fieldx_aux/src/nesting_attr.rs', 'fieldx_aux/src/syn_value.rs', 'fieldx_aux/src/builder_helper.rs')
UT, TR = 'fieldx_aux/src/util.rs', 'fieldx_aux/src/traits.rs'
ref('r2-sync-rename-fields', (SP, 'self.value', 'self.slot'), (SP, 'other.value', 'other.slot'), (SP, '    value:   RwLock<', '    slot:    RwLock<'), (SP, '            value:   RwLock::new', '            slot:    RwLock::new'), (SP, 'self.is_set\n', 'self.flag\n'), (SP, '    is_set:  AtomicBool,', '    flag:    AtomicBool,'), (SP, '            is_set:  AtomicBool', '            flag:    AtomicBool'),
    (SP, 'self.builder.read()', 'self.maker.read()'), (SP, '    builder: RwLock<', '    maker: RwLock<'), (SP, '            builder: RwLock::new', '            maker: RwLock::new'))
ref('r2-async-rename-fields', (AP, 'self.value', 'self.slot'), (AP, '    value:   RwLock<', '    slot:    RwLock<'), (AP, '            value:   RwLock::new', '            slot:    RwLock::new'), (AP, '&self.is_set\n', '&self.flag\n'), (AP, '    is_set:  AtomicBool,', '    flag:    AtomicBool,'), (AP, '            is_set:  AtomicBool', '            flag:    AtomicBool'))
ref('r2-eq-order', (SP, '''        if std::ptr::from_ref(self) < std::ptr::from_ref(other) {
            let myguard = self.value.read();
            let otherguard = other.value.read();
            myguard.eq(&otherguard)
        }
        else {
            let otherguard = other.value.read();
            let myguard = self.value.read();
            myguard.eq(&otherguard)
        }''', '''        let (first, second) = if std::ptr::from_ref(self) < std::ptr::from_ref(other) { (self, other) } else { (other, self) };
        let a = first.value.read();
        let b = second.value.read();
        *a == *b'''))
ref('r2-eq-sorted', (SP, '''        if std::ptr::from_ref(self) < std::ptr::from_ref(other) {
            let myguard''', '''        if (self as *const Self as usize) < (other as *const Self as usize) {
            let myguard'''))
ref('r2-drop-enum', (SP, '''        self.is_set_raw().store(false, Ordering::SeqCst);
        wguard.take()''', '''        let old = (**wguard).take();
        if old.is_some() {
            self.is_set_raw().store(false, Ordering::SeqCst);
        }
        old'''))
ref('r2-async-fast', (AP, '''        {
            let guard = self.value.read().await;
            if (*guard).is_some() {
                return Ok(guard);
            }
        }
        Ok(''', '''        let shared = self.value.read().await;
        if shared.is_some() {
            return Ok(shared);
        }
        drop(shared);
        Ok('''))
ref('r2-async-fast-flag', (AP, '''        {
            let guard = self.value.read().await;
            if (*guard).is_some() {
                return Ok(guard);
            }
        }
        Ok(''', '''        if self.is_set() {
            let guard = self.value.read().await;
            if (*guard).is_some() {
                return Ok(guard);
            }
        }
        Ok('''))
ref('r2-async-wrapper', (IA, '''                ::std::boxed::Box::pin(
                    self.#lazy_builder_name()
                )''', '''                let future = self.#lazy_builder_name();
                ::std::boxed::Box::pin(future)'''))
ref('r2-async-wrapper-block', (IA, '''                ::std::boxed::Box::pin(
                    self.#lazy_builder_name()
                )''', '''                ::std::boxed::Box::pin(async move { self.#lazy_builder_name().await })'''))
ref('r2-setter-guard', (SY, '''                        self.#ident.write()#await_call.store(value #into_tok)''', '''                        let mut guard = self.#ident.write()#await_call;
                        guard.store(value #into_tok)'''), (SY, '''                        let mut wlock = self.#ident.write()#await_call;
                        ::std::mem::replace(&mut *wlock, value #into_tok)''', '''                        let value: #ty = value #into_tok;
                        let mut wlock = self.#ident.write()#await_call;
                        let old = ::std::mem::replace(&mut *wlock, value);
                        old'''))
ref('r2-clear-guard', (SY, '''                       self.#ident.write()#await_call.take()''', '''                       let mut guard = self.#ident.write()#await_call;
                       ::std::mem::take(&mut *guard)'''), (SY, '''                        self.#ident.clear()#await_call
''', '''                        let guard = self.#ident.write()#await_call;
                        guard.clear()
'''))
ref('r2-pred', (SY, '''                      self.#ident.#read_method()#await_call.is_some()''', '''                      let guard = self.#ident.#read_method()#await_call;
                      ::std::matches!(*guard, ::std::option::Option::Some(_))'''), (SY, '''                      self.#ident.is_some()
''', '''                      !self.#ident.is_none()
'''))
ref('r2-copy', (SY, '''                            let rlock = self.#ident.read() #await_call #shortcut;
                            (*rlock)#cmethod''', '''                            let value = {
                                let rlock = self.#ident.read() #await_call #shortcut;
                                (*rlock)#cmethod
                            };
                            value'''))
ref('r2-reader', (SY, '''                    self.#ident.#read_method(&#read_arg)#await_call
                }
            ]
        }
        else if fctx.is_optional() {''', '''                    let owner = &#read_arg;
                    self.#ident.#read_method(owner)#await_call
                }
            ]
        }
        else if fctx.is_optional() {'''))
ref('r2-builder-checks', (CT, '''                if self.#field_ident.is_none() {
                    return ::std::result::Result::Err(#field_set_error)
                }''', '''                match self.#field_ident {
                    ::std::option::Option::Some(_) => {}
                    ::std::option::Option::None => return ::std::result::Result::Err(#field_set_error),
                }'''))
ref('r2-builder-setter', (CT, '''                    self.#ident = ::std::option::Option::Some(value #into_tok);
                    self
''', '''                    let _ = self.#ident.replace(value #into_tok);
                    self
'''))
ref('r2-builder-setter-struct', (CT, '''                    self.#ident = ::std::option::Option::Some(value #into_tok);
                    self
''', '''                    let value: #ty = value #into_tok;
                    self.#ident = ::std::option::Option::from(value);
                    self
'''), (CT, 'let span = fctx.helper_span(FXHelperKind::Builder);\n', 'let span = fctx.helper_span(FXHelperKind::Builder);\n            let ty = fctx.ty();\n'))
ref('r2-builder-expect', (CT, 'self.#field_ident.take().unwrap()', 'self.#field_ident.take().expect("checked above")'))
ref('r2-builder-match', (CT, '''                if let ::std::option::Option::Some(field_manual_value) = self.#field_ident.take() {
                    #manual_wrapped
                }
                else {
                    #alternative
                }''', '''                match ::std::mem::take(&mut self.#field_ident) {
                    ::std::option::Option::None => #alternative,
                    ::std::option::Option::Some(field_manual_value) => #manual_wrapped,
                }'''))
ref('r2-construct-let', (CG, '''                    Ok(#construction)''', '''                    let object = #construction;
                    ::std::result::Result::Ok(object)'''))
ref('r2-builder-default', (CG, '''                #vis fn builder() -> #builder_ident #generic_params {
                    #builder_ident::new()''', '''                #vis fn builder() -> #builder_ident #generic_params {
                    let builder = #builder_ident::new();
                    builder'''))
ref('r2-new', (CG, '&quote![..Self::default()], None)', '&quote![..<Self as ::std::default::Default>::default()], None)'))
ref('r2-rc-names', (CG, '''                    #weak_type::upgrade(&self.#myself_field)''', '''                    self.#myself_field.upgrade()'''), (CG, '''                    #weak_type::clone(&self.#myself_field)''', '''                    ::std::clone::Clone::clone(&self.#myself_field)'''))
ref('r2-rc-new', (CT, '''                        let mut this = #self_name {
                            #myself_field: ::std::default::Default::default(),
                            #struct_init
                        }
                        #post_constuct;
                        #rc_type::new_cyclic(
                            move |me| {
                                this.#myself_field = me.clone();
                                this
                            }
                        )''', '''                        let this = #self_name {
                            #myself_field: ::std::default::Default::default(),
                            #struct_init
                        }
                        #post_constuct;
                        #rc_type::new_cyclic(|me| #self_name { #myself_field: me.clone(), ..this })'''))
ref('r2-names-early', (CT, '''        let prefix = args_helper
            .and_then(|h| h.name())
            .or_else(|| helper_kind.default_prefix())
            .unwrap_or("");''', '''        let prefix = match args_helper.and_then(|h| h.name()) {
            Some(name) => name,
            None => helper_kind.default_prefix().unwrap_or_default(),
        };'''))
ref('r2-attrs', (CT, '''        match inlining {
            FXInlining::Default''', '''        let attrs = attrs.map(|a| a.to_token_stream());
        match inlining {
            FXInlining::Default'''))
ref('aux-value', (VA, '''        if self.is_true() {
            self.value.as_ref()
        }
        else {
            None
        }''', '''        match (self.off.is_present(), &self.value) {
            (false, Some(v)) => Some(v),
            _ => None,
        }'''))
ref('aux-value-filter', (VA, '''        if self.is_true() {
            self.value.as_ref()
        }
        else {
            None
        }''', '''        self.value.as_ref().filter(|_| self.is_true())'''))
ref('aux-value-rename', (VA, 'self.value', 'self.stored'), (VA, '    value: Option<T>,', '    stored: Option<T>,'), (VA, 'value: None', 'stored: None'), (VA, 'value: Some(value)', 'stored: Some(value)'), (VA, '            value,\n', '            stored: value,\n'))
ref('aux-nest-rename', (NA, 'inner', 'content'))
ref('aux-lits', (VA, '''        if literals.len() > 0 && BOOL_ONLY {
            Err(darling::Error::custom("No literal arguments are allowed here").with_span(&literals[0].span()))
        }
        else if literals.len() > 1 {
            Err(darling::Error::custom("Only one literal argument is allowed here").with_span(&literals[0].span()))
        }
        else {
            Ok(())
        }''', '''        match literals.as_slice() {
            [] => Ok(()),
            [first, ..] if BOOL_ONLY => {
                Err(darling::Error::custom("No literal arguments are allowed here").with_span(&first.span()))
            }
            [_] => Ok(()),
            [first, ..] => {
                Err(darling::Error::custom("Only one literal argument is allowed here").with_span(&first.span()))
            }
        }'''))
ref('aux-lit-match', (VA, '''                if let $from(ref lit) = literals[0] {
                    self.value = Some(lit.value());
                }
                else {
                    return Err(darling::Error::unexpected_lit_type(&literals[0]));
                }
                Ok(self)''', '''                match &literals[0] {
                    $from(lit) => {
                        self.value = Some(lit.value());
                        Ok(self)
                    }
                    other => Err(darling::Error::unexpected_lit_type(other)),
                }'''))
ref('aux-acc-lits', (AH, '''        if literals.len() > 1 {
            return Err(darling::Error::custom("Too many literals"));
        }
        else if literals.len() == 1 {''', '''        if literals.len() >= 2 {
            return Err(darling::Error::custom("Too many literals"));
        }
        if !literals.is_empty() {'''))
ref('aux-acc-mode', (AH, '''        if self.clone.is_present() {
            Some(FXAccessorMode::Clone)
        }
        else if self.copy.is_present() {
            Some(FXAccessorMode::Copy)
        }
        else if self.as_ref.is_present() {
            Some(FXAccessorMode::AsRef)
        }''', '''        if self.as_ref.is_present() {
            Some(FXAccessorMode::AsRef)
        }
        else if self.copy.is_present() {
            Some(FXAccessorMode::Copy)
        }
        else if self.clone.is_present() {
            Some(FXAccessorMode::Clone)
        }'''))
ref('aux-serde-needs', (SH, '''        self.serialize
            .as_ref()
            .map(|s| s.is_true())
            .or_else(|| self.deserialize.as_ref().map(|d| !d.is_true()))''', '''        match (&self.serialize, &self.deserialize) {
            (Some(s), _) => Some(s.is_true()),
            (None, Some(d)) => Some(!d.is_true()),
            (None, None) => None,
        }'''))
ref('aux-serde-is', (SH, '''            if is_serialize.is_none() && is_deserialize.is_none() {
                return None;
            }

            Some(is_serialize.unwrap_or(true) || is_deserialize.unwrap_or(true))''', '''            match (is_serialize, is_deserialize) {
                (None, None) => None,
                (Some(false), Some(false)) => Some(false),
                _ => Some(true),
            }'''))
ref('aux-serde-attr', (SH, 'self.forward_attrs.as_ref().map_or(true, |fa| fa.contains(attr.path()))', '''match self.forward_attrs {
            None => true,
            Some(ref list) => list.iter().any(|path| path == attr.path()),
        }'''))
ref('aux-default', (DA, '''        let meta = if items.len() == 2 {''', '''        if items.len() > 2 {
            return Err(darling::Error::too_many_items(2));
        }
        let meta = if items.len() == 2 {'''))
ref('aux-default-str', (DA, '''        if let Some(NestedMeta::Lit(syn::Lit::Str(ref _lit))) = self.value {
            true
        }
        else {
            false
        }''', '''        matches!(self.value, Some(NestedMeta::Lit(syn::Lit::Str(_))))'''), (DA, '            off:   Default::default(),', '            off:   false,'))
ref('aux-default-rename', (DA, '    off:   bool,', '    disabled: bool,'), (DA, '            off,\n', '            disabled: off,\n'), (DA, '                off:   Default::default(),', '                disabled: false,'), (DA, '!self.off', '!self.disabled'))
ref('aux-bool', (TR, 'self.as_ref().map_or(false, |h| h.is_true())', 'self.is_true_opt().unwrap_or(false)'))
ref('aux-bool-match', (TR, 'self.as_ref().map_or(false, |h| h.is_true())', 'matches!(self, Some(h) if h.is_true())'))
ref('aux-builder-valid', (BH, '''        if !STRUCT {
            if self.error.is_some() {''', '''        if STRUCT {
            return Ok(());
        }
        {
            if self.error.is_some() {'''))
ref('aux-punct', (SV, '''        if MIN >= 0 && count < MIN as usize {''', '''        if MIN > 0 && count < MIN as usize {'''))
ref('aux-tuple', (SV, '''                    if items.len() > expected {
                        return Err(darling::Error::too_many_items(expected));
                    }
                    if items.len() < expected {
                        return Err(darling::Error::too_few_items(expected));
                    }''', '''                    match items.len().cmp(&expected) {
                        std::cmp::Ordering::Less => return Err(darling::Error::too_few_items(expected)),
                        std::cmp::Ordering::Greater => return Err(darling::Error::too_many_items(expected)),
                        std::cmp::Ordering::Equal => {}
                    }'''))

# ---- third round
PROXY_NEW = ('''            builder: RwLock::new(Some(builder)),
''', '''            builder,
''')
ref('r3-builder-bare', (SP, '    builder: RwLock<Option<B>>,\n', '    builder: B,\n'), (SP, *PROXY_NEW), (SP, '''                match *self.builder.read() {
                    Some(ref builder_cb) => {
                        *wguard = Some((*builder_cb).invoke(owner)?);
                        self.is_set_raw().store(true, Ordering::SeqCst);
                    }
                    None => panic!("Builder is not set"),
                }
''', '''                *wguard = Some(self.builder.invoke(owner)?);
                self.is_set.store(true, Ordering::SeqCst);
'''), (SP, '        let bguard = self.builder.read();\n', ''), (SP, 'RwLock::new(bguard.clone())', 'self.builder.clone()'))
ref('r3-read-fast', (SP, '''    pub fn read<'a>(&'a self, owner: &B::Owner) -> MappedRwLockReadGuard<'a, B::Value> {
''', '''    pub fn read<'a>(&'a self, owner: &B::Owner) -> MappedRwLockReadGuard<'a, B::Value> {
        let guard = self.value.read();
        if guard.is_some() {
            return RwLockReadGuard::map(guard, |data: &Option<B::Value>| data.as_ref().unwrap());
        }
        drop(guard);
'''))
ref('r3-read-try-map', (SP, '''        RwLockReadGuard::map(
            RwLockUpgradableReadGuard::downgrade(self.read_or_init(owner).unwrap()),
            |data: &Option<B::Value>| data.as_ref().unwrap(),
        )
''', '''        let guard = RwLockUpgradableReadGuard::downgrade(self.read_or_init(owner).unwrap());
        match RwLockReadGuard::try_map(guard, |data| data.as_ref()) {
            Ok(mapped) => mapped,
            Err(_) => unreachable!(),
        }
'''))
ref('r3-flag-swap', (SP, '''                        self.is_set_raw().store(true, Ordering::SeqCst);
                    }''', '''                        self.is_set_raw().swap(true, Ordering::SeqCst);
                    }'''), (SP, '''        self.is_set_raw().store(false, Ordering::SeqCst);
''', '''        let _was = self.is_set_raw().fetch_and(false, Ordering::SeqCst);
'''))
ref('r3-store-mem', (SP, '''        self.lock.borrow_mut().replace(value)
''', '''        let slot = self.lock.get_mut();
        std::mem::replace(&mut **slot, Some(value))
'''))
ref('r3-store-insert', (SP, '''        self.lock.borrow_mut().replace(value)
''', '''        let mut slot = self.lock.borrow_mut();
        let old = slot.take();
        slot.insert(value);
        old
'''))
ref('r3-clear-swap', (SP, '''        wguard.take()
''', '''        let mut none = None;
        std::mem::swap(&mut **wguard, &mut none);
        none
'''))
ref('r3-clear-write-guard', (SP, '''        let mut wguard = self.value.write();
        self.clear_with_lock(&mut wguard)
''', '''        self.write().clear()
'''))
ref('r3-init-insert-with', (SP, '''                        *wguard = Some((*builder_cb).invoke(owner)?);
''', '''                        let built = (*builder_cb).invoke(owner)?;
                        wguard.get_or_insert_with(|| built);
'''))
ref('r3-init-loop', (SP, INIT, '''        let mut guard = guard;
        loop {
            if guard.is_some() {
                break Ok(guard);
            }
            let mut wguard = RwLockUpgradableReadGuard::upgrade(guard);
            if wguard.is_none() {
                match *self.builder.read() {
                    Some(ref builder_cb) => {
                        *wguard = Some((*builder_cb).invoke(owner)?);
                        self.is_set_raw().store(true, Ordering::SeqCst);
                    }
                    None => panic!("Builder is not set"),
                }
            }
            guard = RwLockWriteGuard::downgrade_to_upgradable(wguard);
        }
'''))
ref('r3-peek', (SP, '''    fn clear_with_lock(''', '''    /// The value, if it is set.
    pub fn peek<'a>(&'a self) -> Option<MappedRwLockReadGuard<'a, B::Value>> {
        RwLockReadGuard::try_map(self.value.read(), |data| data.as_ref()).ok()
    }

    fn clear_with_lock('''))
ref('r3-clone-read', (SP, '''            value:   RwLock::new((*vguard).as_ref().cloned()),
            is_set:  AtomicBool::new(self.is_set()),
''', '''            is_set:  AtomicBool::new(vguard.is_some()),
            value:   RwLock::new(vguard.clone()),
'''))
ref('r3-async-builder-bare', (AP, '    builder: RwLock<Option<B>>,\n', '    builder: B,\n'), (AP, *PROXY_NEW), (AP, '''            match *self.builder.read().await {
                Some(ref builder_cb) => {
                    *guard = Some((*builder_cb).invoke(owner).await?);
                    self.is_set_raw().store(true, Ordering::SeqCst);
                }
                None => panic!("Builder is not set"),
            }
''', '''            *guard = Some(self.builder.invoke(owner).await?);
            self.is_set.store(true, Ordering::SeqCst);
'''), (AP, '        let bguard = self.builder.blocking_read();\n', ''), (AP, 'RwLock::new((*bguard).clone())', 'self.builder.clone()'))
ref('r3-async-insert', (AP, '''                    *guard = Some((*builder_cb).invoke(owner).await?);
''', '''                    let built = (*builder_cb).invoke(owner).await?;
                    let _ = guard.insert(built);
'''))
ref('r3-async-match', (AP, '''                    *guard = Some((*builder_cb).invoke(owner).await?);
                    self.is_set_raw().store(true, Ordering::SeqCst);
''', '''                    match builder_cb.invoke(owner).await {
                        Err(error) => return Err(error),
                        Ok(built) => *guard = Some(built),
                    }
                    self.is_set_raw().store(true, Ordering::SeqCst);
'''))
ref('r3-async-store', (AP, '''        self.lock.borrow_mut().replace(value)
''', '''        let mut slot = self.lock.borrow_mut();
        let old = slot.take();
        **slot = Some(value);
        old
'''))
ref('r3-async-read-try-map', (AP, '''        Ok(RwLockReadGuard::map(
            self.read_init(owner).await?,
            |data: &Option<B::Value>| data.as_ref().unwrap(),
        ))
''', '''        let guard = self.read_init(owner).await?;
        Ok(RwLockReadGuard::try_map(guard, |data| data.as_ref()).ok().expect("initialized"))
'''))
# plain code
ref('r3-plain-get-first', (PL, '''                let ret = fctx.fallible_ok_return(quote_spanned! {span=> #deref #lazy_init #shortcut #meth });
''', '''                let ret = fctx.fallible_ok_return(quote_spanned! {span=> {
                    let value = match self.#ident.get() {
                        ::std::option::Option::Some(value) => value,
                        ::std::option::Option::None => #lazy_init #shortcut,
                    };
                    #deref value #meth
                } });
'''))
ref('r3-plain-imut-set', (PL, '''                            self.#ident.replace(#value_tok) }
''', '''                            ::std::mem::replace(&mut *self.#ident.borrow_mut(), #value_tok) }
'''))
ref('r3-plain-imut-set-with', (PL, '''                            self.#ident.replace(#value_tok) }
''', '''                            let value = #value_tok;
                            self.#ident.replace_with(move |_| value) }
'''))
ref('r3-plain-clear', (PL, '''                    self.#ident.take()
                }
            ])''', '''                    let old = self.#ident.take();
                    old
                }
            ])'''))
ref('r3-plain-pred-matches', (PL, '''                            self.#ident #borrow_tok .is_some()
''', '''                            ::std::matches!(self.#ident #borrow_tok .as_ref(), ::std::option::Option::Some(_))
'''))
ref('r3-plain-asref', (PL, '''                            ::fieldx::Ref::filter_map(self.#ident.borrow(), |value| value.as_ref()).ok()
''', '''                            let value = self.#ident.borrow();
                            if value.is_none() {
                                return ::std::option::Option::None;
                            }
                            ::std::option::Option::Some(::fieldx::Ref::map(value, |value| value.as_ref().unwrap()))
'''))
ref('r3-plain-getmut-lazy', (PL, '''                        self.#ident.#init_method( || #builder_self.#lazy_name() )#shortcut;
                        #get_mut
''', '''                        if self.#ident.get().is_none() {
                            self.#ident.#init_method( || #builder_self.#lazy_name() )#shortcut;
                        }
                        #get_mut
'''))
# sync code
ref('r3-sync-clone-guard', (SY, '''                    let ret = fctx.fallible_ok_return(quote_spanned! {span=> (*rlock)#cmethod});
''', '''                    let ret = if is_copy { quote_spanned! {span=> *rlock} } else { quote_spanned! {span=> ::std::clone::Clone::clone(&*rlock)} };
                    let ret = fctx.fallible_ok_return(ret);
'''))
ref('r3-sync-opt-clone', (SY, '''quote_spanned![cc_span=> .as_ref().cloned()]''', '''quote_spanned![cc_span=> .clone()]'''))
ref('r3-sync-opt-copied', (SY, '''quote_spanned![cc_span=> .as_ref().copied()]''', '''quote![]'''))
ref('r3-sync-opt-map', (SY, '''quote_spanned![cc_span=> .as_ref().cloned()]''', '''quote_spanned![cc_span=> .as_ref().map(|value| ::std::clone::Clone::clone(value))]'''))
ref('r3-sync-set-swap', (SY, '''                        let mut wlock = self.#ident.write()#await_call;
                        ::std::mem::replace(&mut *wlock, value #into_tok)
''', '''                        let mut value = value #into_tok;
                        let mut wlock = self.#ident.write()#await_call;
                        ::std::mem::swap(&mut *wlock, &mut value);
                        value
'''))
ref('r3-sync-pred-asref', (SY, '''                      self.#ident.#read_method()#await_call.is_some()''', '''                      self.#ident.#read_method()#await_call.as_ref().map_or(false, |_| true)'''))
ref('r3-sync-clear-mem', (SY, '''                       self.#ident.write()#await_call.take()''', '''                       ::std::mem::take(&mut *self.#ident.write()#await_call)'''))
ref('r3-sync-or-default', (SY, '''quote_spanned! [span=> .or_else(|| ::std::option::Option::Some(#default))]''', '''quote_spanned! [span=> .map_or_else(|| ::std::option::Option::Some(#default), ::std::option::Option::Some)]'''))
# constructors
ref('r3-builder-replace', (CT, '''                    self.#ident = ::std::option::Option::Some(value #into_tok);
                    self
''', '''                    let value = value #into_tok;
                    let _ = self.#ident.replace(value);
                    self
'''))
ref('r3-builder-insert', (CT, '''                    self.#ident = ::std::option::Option::Some(value #into_tok);
''', '''                    self.#ident.insert(value #into_tok);
'''))
ref('r3-builder-set-match', (CT, '''                if let ::std::option::Option::Some(field_manual_value) = self.#field_ident.take() {
                    #manual_wrapped
                }
                else {
                    #alternative
                }
''', '''                match ::std::mem::replace(&mut self.#field_ident, ::std::option::Option::None) {
                    ::std::option::Option::None => #alternative,
                    ::std::option::Option::Some(field_manual_value) => #manual_wrapped,
                }
'''))
ref('r3-builder-ok-or', (CT, '''                if self.#field_ident.is_none() {
                    return ::std::result::Result::Err(#field_set_error)
                }
''', '''                if let ::std::result::Result::Err(error) = self.#field_ident.as_ref().map(|_| ()).ok_or_else(|| #field_set_error) {
                    return ::std::result::Result::Err(error);
                }
'''))
ref('r3-build-split', (CG, '''                    #( #builder_checkers );*
                    Ok(#construction)
''', '''                    #( #builder_checkers );*
                    let built = #construction;
                    ::std::result::Result::Ok(built)
'''))
ref('r3-myself-map', (CG, '''                    #weak_type::upgrade(&self.#myself_field)
''', '''                    let weak = self.#downgrade_name();
                    weak.upgrade()
'''))
ref('r3-default-let', (CG, '''                    Self { #defaults }
''', '''                    let this = Self { #defaults };
                    this
'''))
# serde
ref('r3-serde-lazy-inner', (PL, '''            quote![ #me_var.#field_ident.take() ]''', '''            quote![ #me_var.#field_ident.into_inner() ]'''))
ref('r3-serde-from-match', (PL, '''            quote![ #shadow_var.#field_ident.map_or_else(|| #default_value, |v| #shadow_value) ]''', '''            quote![ match #shadow_var.#field_ident {
                ::std::option::Option::Some(v) => #shadow_value,
                ::std::option::Option::None => #default_value,
            } ]'''))
ref('r3-serde-me-let', (SE, '''                        #( #lazy_inits )*
                        Self {
                            #phantom
                            #( #fields, )*
                        }
''', '''                        #( #lazy_inits )*
                        let shadow = Self {
                            #phantom
                            #( #fields, )*
                        };
                        shadow
'''))
ref('r3-serde-init-drop', (SE, '''lazy_inits.push(quote![ let _ = #init_call; ]);''', '''lazy_inits.push(quote![ { let initialized = #init_call; ::std::mem::drop(initialized); } ]);'''))
ref('aux-r3-partition', (NA, '''        for item in nlist {
            match item {
                NestedMeta::Meta(ref meta) => {
                    non_lit.push(NestedMeta::Meta(meta.clone()));
                }
                NestedMeta::Lit(ref lit) => {
                    literals.push(lit.clone());
                }
            }
        }
''', '''        nlist.into_iter().for_each(|item| match item {
            NestedMeta::Lit(lit) => literals.push(lit),
            meta => non_lit.push(meta),
        });
'''))
ref('aux-r3-filter', (NA, '''        let mut non_lit: Vec<NestedMeta> = vec![];
        let mut literals: Vec<Lit> = vec![];

        for item in nlist {
            match item {
                NestedMeta::Meta(ref meta) => {
                    non_lit.push(NestedMeta::Meta(meta.clone()));
                }
                NestedMeta::Lit(ref lit) => {
                    literals.push(lit.clone());
                }
            }
        }
''', '''        let non_lit: Vec<NestedMeta> = nlist.iter().filter(|item| matches!(item, NestedMeta::Meta(_))).cloned().collect();
        let literals: Vec<Lit> = nlist.iter().filter_map(|item| match item {
            NestedMeta::Lit(lit) => Some(lit.clone()),
            _ => None,
        }).collect();
'''))
ref('aux-r3-while', (NA, '''        for item in nlist {
            match item {
                NestedMeta::Meta(ref meta) => {
                    non_lit.push(NestedMeta::Meta(meta.clone()));
                }
                NestedMeta::Lit(ref lit) => {
                    literals.push(lit.clone());
                }
            }
        }
''', '''        let mut rest = nlist.into_iter();
        while let Some(item) = rest.next() {
            if let NestedMeta::Lit(lit) = item {
                literals.push(lit);
            }
            else {
                non_lit.push(item);
            }
        }
'''))
ref('aux-r3-empty', (NA, '''        let mut fattr = T::from_list(&non_lit)?;
        if literals.len() > 0 {
            fattr = fattr.set_literals(&literals)?;
        }
''', '''        let fattr = T::from_list(&non_lit)?;
        let fattr = if literals.is_empty() { fattr } else { fattr.set_literals(&literals)? };
'''))
ref('aux-r3-from-meta', (NA, '''        Ok(match &item {
            Meta::List(_) => {
                if T::with_literals() {
                    Self::extract_literals(item)?
                }
                else {
                    Self {
                        inner: T::from_meta(item)?,
                        orig:  Some(item.clone()),
                    }
                }
            }
            Meta::Path(ref path) => Self {
                inner: T::for_keyword(path)?,
                orig:  Some(item.clone()),
            },
            _ => Self {
                inner: T::from_meta(item)?,
                orig:  Some(item.clone()),
            },
        })
''', '''        if matches!(item, Meta::List(_)) && T::with_literals() {
            return Self::extract_literals(item);
        }
        let inner = if let Meta::Path(path) = item { T::for_keyword(path)? } else { T::from_meta(item)? };
        Ok(Self { inner, orig: Some(item.clone()) })
'''))
ref('aux-r3-acc-slice', (AH, '''        if literals.len() > 1 {
            return Err(darling::Error::custom("Too many literals"));
        }
        else if literals.len() == 1 {
            if let Lit::Str(ref str) = literals[0] {
                self.name = Some(str.value().fx_into());
            }
            else {
                let err =
                    darling::Error::unexpected_type(&literals[0].to_token_stream().to_string()).with_span(&literals[0]);
                #[cfg(feature = "diagnostics")]
                let err = err.note("Expected a string with helper name");
                return Err(err);
            }
        }
        Ok(self)
''', '''        match literals.as_slice() {
            [] => Ok(self),
            [Lit::Str(name)] => {
                self.name = Some(name.value().fx_into());
                Ok(self)
            }
            [other] => {
                let err = darling::Error::unexpected_type(&other.to_token_stream().to_string()).with_span(other);
                #[cfg(feature = "diagnostics")]
                let err = err.note("Expected a string with helper name");
                Err(err)
            }
            _ => Err(darling::Error::custom("Too many literals")),
        }
'''))
ref('aux-r3-exclusives-any', ('fieldx_aux/src/util.rs', '''                    let mut subgroup_set = false;
                    for (name, is_set, span) in subgroup {
                        if is_set {
                            subgroup_set = true;
                            set_params.push((name, span));
                        }
                    }

                    if subgroup_set {
                        subgroups_set += 1;
                    }
''', '''                    let before = set_params.len();
                    set_params.extend(subgroup.into_iter().filter(|(_, is_set, _)| *is_set).map(|(name, _, span)| (name, span)));
                    if set_params.len() > before {
                        subgroups_set += 1;
                    }
'''))
ref('aux-r3-public-mode', ('fieldx_aux/src/util.rs', '''    if private.as_ref().map_or(false, |p| p.is_true()) {
        Some(FXPubMode::Private)
    }
    else {
        public.as_ref().map(|pm| (**pm).clone())
    }
''', '''    match (private, public) {
        (Some(private), _) if private.is_true() => Some(FXPubMode::Private),
        (_, Some(public)) => Some((**public).clone()),
        _ => None,
    }
'''))
ref('aux-r3-attrs-loop', ('fieldx_aux/src/attributes.rs', '''                let ml_chunks: Vec<TokenStream> = vec![TokenStream::new()];
                // Split the incoming tokenstream into chunks separated by commas
                let mut ml_chunks = ml.tokens.clone().into_iter().fold(ml_chunks, |mut mlc, item| {
                    if matches!(item, proc_macro2::TokenTree::Punct(ref punct) if punct.as_char() == ',') {
                        mlc.push(TokenStream::new());
                    }
                    else {
                        mlc.last_mut().unwrap().extend([item]);
                    }
                    mlc
                });
''', '''                let mut ml_chunks: Vec<TokenStream> = vec![TokenStream::new()];
                for item in ml.tokens.clone() {
                    match item {
                        proc_macro2::TokenTree::Punct(ref punct) if punct.as_char() == ',' => ml_chunks.push(TokenStream::new()),
                        other => ml_chunks.last_mut().unwrap().extend(std::iter::once(other)),
                    }
                }
'''))
ref('aux-r3-serde-match', (SH, '''        self.default_value.as_ref().map_or(false, |d| d.is_true())''', '''        matches!(&self.default_value, Some(d) if d.is_true())'''), (SH, '''        if self.has_default() {
            self.default_value.as_ref().and_then(|d| d.value().as_ref())
        }
        else {
            None
        }
''', '''        let default = self.default_value.as_ref()?;
        if !default.is_true() {
            return None;
        }
        default.value().as_ref()
'''))
ref('aux-r3-num', (VA, '''                if let $from(ref lit) = literals[0] {
                    self.value = Some(lit.base10_parse()?);
                }
                else {
                    return Err(darling::Error::unexpected_lit_type(&literals[0]));
                }
                Ok(self)
''', '''                match literals.first() {
                    Some($from(lit)) => {
                        self.value = Some(lit.base10_parse()?);
                        Ok(self)
                    }
                    _ => Err(darling::Error::unexpected_lit_type(&literals[0])),
                }
'''))
ref('aux-r3-punct', (SV, '''        let count = result.len();
        if MIN >= 0 && count < MIN as usize {
            return Err(darling::Error::too_few_items(MIN as usize)
                .with_span(&result.span())
                .into());
        }
        if MAX >= 0 && count > MAX as usize {
            return Err(darling::Error::too_many_items(MAX as usize)
                .with_span(&result.span())
                .into());
        }

        Ok(Self {
            items: result.into_iter().collect(),
            _p:    PhantomData::default(),
        })
''', '''        let span = result.span();
        let items: Vec<T> = result.into_iter().collect();
        if MAX >= 0 && items.len() > MAX as usize {
            return Err(darling::Error::too_many_items(MAX as usize).with_span(&span).into());
        }
        if MIN >= 0 && items.len() < MIN as usize {
            return Err(darling::Error::too_few_items(MIN as usize).with_span(&span).into());
        }
        Ok(Self { items, _p: PhantomData })
'''))



def main():
    os.environ['FXDEV_REPO'] = S
    os.environ['FXDEV_BUILD'] = B
    sys.path.insert(0, V + '/spec')
    if not os.path.isdir(S):
        sh('git clone -q /repo %s' % S)
    sh('git -C %s fetch -q origin HEAD; git -C %s reset -q --hard FETCH_HEAD' % (S, S))
    if not os.path.isdir(B):
        sh('cp -a %s/build %s' % (V, B))
    import build, check
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    kn = {(a, b) for a, b, _ in check.known()}
    for name in (args or R):
        sh('git -C %s checkout -q -- .' % S)
        miss = False
        for f, old, new in R[name]:
            p = os.path.join(S, f)
            t = open(p).read()
            if old not in t:
                print(name, 'TEXT NOT FOUND', f, repr(old[:60]))
                miss = True
                break
            open(p, 'w').write(t.replace(old, new))
        if miss:
            continue
        try:
            fs, st = check.gather('C27' if '-p' in sys.argv else 'C38' if name.startswith('aux') and '-a' in sys.argv else 'try', False)
        except build.TreeError as e:
            print(name, 'TREE', str(e)[:1500])
            continue
        c, u = collections.Counter(), collections.Counter()
        for f in fs:
            for q in f.props:
                if (q, f.key()) not in kn:
                    (u if f.rule.startswith('undecided') else c)[q] += 1
        print(name, 'ALARM' if c else 'quiet', dict(c), ('undecided ' + str(dict(u))) if u else '', flush=True)
        if '-v' in sys.argv:
            seen = set()
            for f in fs:
                if (f.rule, f.where) not in seen and not all((q, f.key()) in kn for q in f.props):
                    seen.add((f.rule, f.where))
                    if len(seen) < 9:
                        print('   ', sorted(f.props), f.rule, f.where, f.text[:600])
    sh('git -C %s checkout -q -- .' % S)


if __name__ == '__main__':
    main()
