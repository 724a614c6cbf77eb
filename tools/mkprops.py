import json
SP="fieldx/src/sync/fxproxy.rs"; AP="fieldx/src/async/fxproxy.rs"
SL="fieldx/src/sync/fxlock.rs"; AL="fieldx/src/async/fxlock.rs"
CG="fieldx_derive/src/codegen.rs"; CT="fieldx_derive/src/codegen/codegen_trait.rs"
PL="fieldx_derive/src/codegen/plain.rs"; SY="fieldx_derive/src/codegen/sync.rs"
IA="fieldx_derive/src/codegen/sync/impl_async.rs"; IS="fieldx_derive/src/codegen/sync/impl_sync.rs"
SE="fieldx_derive/src/codegen/serde.rs"; XC="fieldx_derive/src/ctx/codegen.rs"; XF="fieldx_derive/src/ctx/field.rs"
FI="fieldx_derive/src/fields.rs"; AR="fieldx_derive/src/util/args.rs"; HE="fieldx_derive/src/helper.rs"
AX="fieldx_aux/src/"
P=[]
def p(id,title,st,over,q,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))

p("C01","Sync lazy field: builder runs once per initialization under any schedule",
 "However many threads access an unset lazy field of a sync struct at once, its builder runs exactly once for that initialization, with every concurrent access seeing the value that run produced. Once the field is set, no access runs the builder again until the field is cleared.",
 ["schedules"],"all interleavings of any number of threads calling any mix of the generated helpers on one lazy field",
 "sync.rs runs a handful of threads once; an unlucky interleaving (two threads both seeing an empty field, a clear between check and store) is never forced.",
 [SP,SY,IS],[("double-checked init under upgradable+write lock","FXProxySync::read_or_init")],
 [("value","the optional payload, guarded by a parking_lot RwLock",SP),("is_set","lock-free mirror of 'value is Some'",SP)],
 ["builder call sites reachable from generated accessors","lock mode held at the call"])
p("C02","Async lazy field: builder runs once per initialization under any task order",
 "However many tasks access an unset lazy field of an async struct at once, its async builder is run to completion exactly once for that initialization, with every concurrent access seeing the value that run produced. Once the field is set, no access runs the builder again until the field is cleared.",
 ["schedules"],"all interleavings of tasks at every suspension point",
 "async.rs exercises a few runtime-chosen interleavings; suspension points between the emptiness check and the store are not explored.",
 [AP,SY,IA],[("write lock held from check to store across awaits","FXProxyAsync::read_or_init")],
 [("value","the optional payload, guarded by a tokio RwLock",AP)],["await points while the field lock is held"])
p("C03","Set-status of a lazy field always agrees with its content",
 "Whenever nobody holds a sync or async lazy field's lock, the field reports itself as set if and only if it holds a value. This holds after construction, first access, setters, clearers, writer-guard stores and clears, cloning, and after a builder fails, panics or is cancelled.",
 ["histories","schedules","fault_sequences"],"all sequences of helper calls, including failing ones, on sync and async lazy fields",
 "Tests check the predicate after a few hand-written sequences; the status flag is a separate atomic that any code path can forget or set too early.",
 [SP,AP],[("flag updated together with the payload under the write lock","read_or_init / store / clear_with_lock / new_default / Clone")],
 [("is_set","lock-free status flag",SP+", "+AP),("value","payload",SP+", "+AP)],["predicate methods","FXProxy*::is_set"])
p("C04","A failing, panicking or cancelled lazy builder leaves the field unset",
 "If a lazy builder returns an error, panics, or (async) is dropped midway, the field stays unset, nothing is stored, no lock stays held, and a later access runs the builder again. The error value the builder returned reaches the caller unchanged from the fallible accessors.",
 ["fault_sequences","histories"],"every fault point inside a lazy initialization, in plain, sync and async mode",
 "A few fallible tests return an error once; panics and cancellation inside a builder are never injected.",
 [SP,AP,PL,SY],[("`?` before the store; guards released on unwind","read_or_init, get_or_try_init")],(),["error, unwind and suspension exits of lazy accessors"])
p("C05","Stores, clears and write guards never run the builder; return the old value",
 "Setters, clearers, writer helpers and the store/clear operations of write guards never run a lazy builder. A store makes the given value the content and returns exactly the previous content (none if unset); a clear empties the field and returns exactly the previous content.",
 ["histories"],"all helper call sequences on lazy and optional fields in every mode",
 "Tests store into a few fields and look at one return value; nothing checks every mode and state.",
 [SP,AP,PL,SY],[("write() hands out the raw container guard","FXProxy*::write, FXWrLockGuard*::store/clear"),("replace/take under the write lock","field_setter, field_clearer")],(),["setter, clearer and writer helpers"])
p("C06","Protected data is reachable only under a lock guard of the right mode",
 "In sync and async structs, helpers that take a shared reference hand out the value of a protected field (lazy, optional or lock-wrapped) only as a copy or clone made while the lock was held or as a guard that keeps the lock held. Read helpers give shared guards and mutable/writer helpers give exclusive guards, always onto that same field's data.",
 ["schedules","configurations"],"every protected-field helper over all field configurations and all concurrent use",
 "Tests use the guards correctly in a few configurations; a reference escaping its lock or a read guard exposing mutation would not show as a failure.",
 [SP,AP,SL,AL,SY],[("guard mapping","FXProxy*::read/read_mut/try_*"),("guard-returning helpers","field_reader_method, field_accessor_mut, field_writer")],(),["types and provenance of values returned by generated helpers"])
p("C07","No helper leaks a lock or re-acquires one it already holds",
 "When a generated helper or container operation returns, fails, panics or is cancelled, it holds no lock except through the guard it returned, and at no point does it try to acquire a lock that it already holds on the same call path. A helper of one field never acquires another field's lock (the lazy builder, supplied by the user, is the only code that may).",
 ["schedules","fault_sequences"],"every path, including error, unwind and cancellation paths, through every generated helper and container method",
 "A leaked or doubly taken lock shows up as a hang only on the path that has it; tests cover the straight paths.",
 [SP,AP,SL,AL,SY],[("RAII guards and in-place upgrade/downgrade","fxproxy.rs, fxlock.rs, generated helpers")],(),["acquire and release events per path"])
p("C08","Thread-safety markers of generated structs are neither lost nor forged",
 "A sync or async struct whose every field is protected is Send and Sync whenever its field types are Send and Sync, and futures of async helpers are Send under the same condition. A struct or container holding a non-Send or non-Sync value never becomes Send or Sync, respectively, through fieldx.",
 ["programs","configurations"],"all client programs that rely on or must be denied Send/Sync",
 "Needs all types; tests send a couple of concrete structs between threads and cannot show the absence of a wrong marker.",
 [SP,AP,SL,AL,SY],[("auto traits of the wrapper types; no unsafe impl","container structs"),("Send bound on builder futures","FXCallback, lazy wrapper fn")],(),["trait resolution for probe types"])
p("C09","Cloning, comparing, converting and consuming containers is faithful",
 "Cloning a lazy or lock container yields an independent, unlocked container with a clone of the same content, the same set status and the same lazy builder, and leaves the source unchanged. Equality compares exactly the contents, constructing from a value stores that value, defaulting stores the default, debug output shows the current content, and consuming a container returns exactly its content.",
 ["histories"],"all container states and all operations on them",
 "One or two tests clone a struct; uninitialized, cleared and builder-carrying states are not covered.",
 [SP,AP,SL,AL],[("Clone/PartialEq/Debug/From/into_inner implementations","FXProxySync, FXProxyAsync, FXRwLockSync, FXRwLockAsync")],(),["results of the container operations"])
p("C10","Plain lazy field: built on first access, once, and kept",
 "In a plain struct, reading an unset lazy field runs its builder exactly once on that object and stores the result; reading a set field returns the stored value without running the builder. The mutable accessor first initializes an unset field the same way and then exposes the stored value.",
 ["histories"],"all sequences of helper calls on a plain lazy field, in all accessor modes",
 "lazy tests count builder calls for one or two accessor modes only.",
 [PL],[("OnceCell get_or_init/get_or_try_init","field_accessor, field_accessor_mut")],(),["builder calls reachable from plain accessors"])
p("C11","A setter stores exactly the given value and returns the previous one",
 "Whatever the mode (plain, sync, async; lazy, optional, locked, interior-mutable or bare), a setter makes the value it was given, converted with Into when requested, the content of its field and returns exactly what the field held before. It changes nothing else.",
 ["configurations","histories"],"all setter configurations and prior states",
 "Tests cover some of the mode combinations with one prior state each.",
 [PL,SY,CT],[("setter generation","field_setter, into_toks")],(),["post-state and result of every generated setter"])
p("C12","Clearers empty the field and predicates tell whether it holds a value",
 "A clearer leaves its lazy or optional field without a value and returns exactly the value it held, if any, and the next read of a cleared lazy field builds it anew. A predicate returns true exactly when the field holds a value, and it neither changes nor initializes the field.",
 ["configurations","histories"],"all clearer/predicate configurations and prior states",
 "Tests cover a few fields and states.",
 [PL,SY],[("clearer/predicate generation","field_clearer, field_predicate")],(),["post-state and result of every generated clearer and predicate"])
p("C13","A read accessor returns its own field's current value in the declared form",
 "A get or reader helper returns the current value of the field it is named for: a reference, or a guard in lock-protected or interior-mutable fields, by default, a copy with copy, a clone with clone, and Option<&T> for optional fields with as_ref. Apart from initializing a lazy field it changes nothing.",
 ["configurations"],"all accessor configurations at struct and field level and in every mode",
 "The product of modes, storage kinds and accessor forms is far larger than the tested set.",
 [PL,SY,XF,AX+"accessor_helper.rs"],[("accessor generation","field_accessor, field_reader_method, accessor_mode")],(),["result provenance of every generated accessor"])
p("C14","A mutable accessor gives exclusive access to its own field and only that",
 "A get_mut helper returns mutable access (reference, RefMut or write guard) to exactly the value of the field it is named for, initializing a lazy field first. It does not itself alter a set value or any other field.",
 ["configurations"],"all mutable accessor configurations in every mode",
 "Tests mutate a few fields; cross-field mistakes and silent resets in untested combinations go unnoticed.",
 [PL,SY,SP,AP],[("mutable accessor generation","field_accessor_mut, read_mut, try_read_mut")],(),["result provenance and post-state of every generated mutable accessor"])
p("C15","Exactly the requested helpers exist, field settings overriding struct ones",
 "For every field, a helper method (get, get_mut, reader, writer, set, clearer, predicate) exists if and only if the field-level argument asks for it or, absent one, the struct-level argument does, with off disabling it; an accessor is also implied by lazy, inner_mut, clearer and predicate unless switched off. No other public or private helper methods appear.",
 ["configurations"],"all combinations of struct-level and field-level helper arguments",
 "Tests call the methods that should exist; a helper that should not exist is rarely checked for.",
 [CT,XF,FI,AR,AX+"base_helper.rs"],[("needs_* resolution","FXFieldCtx, needs_helper!")],(),["method set of each generated impl"])
p("C16","Helper names follow prefix, rename and explicit-name rules",
 "A helper is named by the field-level explicit name if given, else by the struct-level prefix or the default prefix for its kind (clear_, build_, has_, read_, set_, write_, none for get and builder setters) plus the field's renamed or own name, plus _mut for mutable accessors. The same rules name the lazy builder method the user must supply and the methods of the builder type.",
 ["configurations"],"all combinations of rename, prefixes and explicit names over helper kinds and modes",
 "Tests use a handful of custom names.",
 [CT,HE,XF,AX+"base_helper.rs"],[("helper_name","FXCodeGenContextual::helper_name")],(),["names of generated methods"])
p("C17","Helper visibility follows helper, field, struct-helper, struct precedence",
 "A field helper gets the visibility given in its own field-level argument, else the field's default, else that of the struct-level helper argument, else the struct's default, else the visibility of the struct itself. private means module-private, and the same public/private rules govern the builder type, its build and builder functions, the reference-counting helpers and the serde shadow struct.",
 ["configurations","programs"],"all combinations of visibility arguments at the four levels, for every helper kind",
 "Tests live in the same crate and mostly the same module, so a too-wide visibility never fails them.",
 [XF,CG,SY,PL,AX+"util.rs"],[("vis_tok precedence","FXFieldCtx::vis_tok"),("builder_struct_visibility",CG)],(),["effective visibility of generated items"])
p("C18","Fields are stored in the documented container for their mode",
 "A plain lazy field is stored in a OnceCell, optional in an Option, inner_mut in a RefCell; a sync or async lazy field in the corresponding lazy container, and optional or lock/reader/writer fields in the corresponding lock container around Option<T> or T unless lock(off). Every other field keeps its declared type, and names, order and visibility of user fields are preserved.",
 ["configurations"],"all field configurations per mode",
 "Tests rarely look at the storage type itself.",
 [PL,SY,CT],[("type_tokens","FXCodeGenPlain/FXCodeGenSync")],(),["field types of generated structs"])
p("C19","new() and default() start each field from its declared default or unset",
 "A freshly created object holds, in each field, the declared default expression's value if there is one, otherwise nothing for lazy and optional fields and Default::default() for the rest, always in that field and in its container. A lazy field created without a value is unset and has its own builder attached; new and Default exist exactly under the documented conditions.",
 ["configurations"],"all field configurations, with and without defaults",
 "Tests read back a few defaults; which builder is attached and the initial status in each mode are not enumerated.",
 [CT,PL,SY,CG,XC],[("field_default_wrap, struct_extras, default_impl","codegen")],(),["initial state produced by generated constructors"])
p("C20","The object builder puts every supplied value into its own field",
 "For a builder-enabled field, the value passed to its builder method (converted with Into when requested; the last call wins) becomes the content of exactly that field of the built object, a supplied lazy or optional value being set from the start. A field not supplied gets its declared default, or unset for lazy/optional fields, exactly as new() would give it; a default expression is evaluated only for a field that was not supplied.",
 ["configurations","inputs"],"all field configurations and all subsets of supplied fields",
 "Tests build a few structs with all or most fields supplied.",
 [CT,PL,SY,CG],[("builder setters and build()","field_builder, field_builder_setter, field_builder_value_for_set, builder_impl")],(),["builder methods and build() results"])
p("C21","build() fails exactly when a required field is missing, naming it, no panic",
 "build() returns the uninitialized-field error carrying the field's name if and only if some required field was not supplied; required means marked required, or a builder field that is neither lazy nor optional and has no default. Otherwise it succeeds, and in no case does it panic (user code aside).",
 ["configurations","inputs"],"all required/default/optional/lazy combinations and all subsets of supplied fields",
 "A few tests omit one field; every other subset and configuration is untested, and an unwrap hides behind each.",
 [CT,CG,PL,SY],[("builder checker","field_builder_value_required, builder_impl")],(),["error and panic exits of generated build()"])
p("C22","build() honours the custom error type and runs post_build exactly once",
 "With builder(error(...)) the declared type is what build() returns, produced from the named variant applied to the field name or by converting the uninitialized-field error. With post_build the named method runs exactly once on the fully assembled object, before reference-count wrapping, its result being what is returned, and its error, when an error type is declared, is propagated.",
 ["configurations"],"all error/post_build/rc combinations",
 "Each feature has one or two tests; combinations are not enumerated.",
 [CG,CT,AX+"builder_helper.rs"],[("maybe_ref_counted_create, builder_error_type/variant",CT)],(),["generated build()"])
p("C23","Builder type exposes setters for exactly the opted-in fields",
 "The builder type and builder() exist if and only if the struct or some field asks for a builder, and the builder type has a setter for a field if and only if that field is builder-enabled: by its own builder argument, else by the struct-level builder unless opt_in is in force or it is switched off. Fields without a setter always get their default on build.",
 ["configurations"],"all combinations of struct-level builder/opt_in and field-level builder arguments",
 "Tests check the presence of setters, almost never their absence.",
 [XC,XF,CT,CG],[("needs_builder_struct, is_builder_opt_in, needs_builder","ctx")],(),["method set of the builder type"])
p("C24","Reference-counted structs hand out strong and weak handles to themselves",
 "With rc, new() and build() return an Rc (plain) or Arc (sync/async), and the object's self-access helpers upgrade or clone a weak pointer to that very allocation. Helper names follow the rc argument, and lazy builders invoked through the object run on that same object.",
 ["configurations"],"all rc structs in every mode, created by any constructor",
 "rc tests cover one plain and one sync struct.",
 [CG,CT],[("new_cyclic with weak self field","maybe_ref_counted_create, myself_methods, prepare_ref_counted")],(),["constructors and self-access helpers of rc structs"])
p("C25","Serde conversion moves every field to and from its own shadow field",
 "Converting a struct into its serde shadow moves each participating field's value into the shadow field of the same name, running the builder of an unset lazy field first so its value is present, and nothing else. Converting a shadow back stores each value into the same-named field (None meaning the field's default, or unset without one; a locked field may also stay unset), with non-participating fields taking their defaults.",
 ["configurations","inputs"],"all serde-enabled struct configurations and all shadow contents",
 "Round-trip tests use a few structs; swaps, drops and wrongly defaulted fields in other combinations are not exercised.",
 [SE,PL,SY],[("From<Shadow>/Into<Shadow> implementations","serde_struct_from_shadow, serde_struct_into_shadow, field_from_shadow, field_from_struct")],(),["generated From implementations"])
p("C26","Serde shadow struct mirrors exactly the participating fields and settings",
 "The shadow struct has the documented or user-given name, the requested visibility and attributes, and a field (Option-wrapped for lazy and optional ones) for exactly the fields that take part in serde, derived only for the requested directions. Field-level rename, default, serialize(off)/deserialize(off) and forwarded attributes appear on the right shadow field.",
 ["configurations"],"all struct-level and field-level serde arguments",
 "Tests serialize a few structs to JSON.",
 [SE,AX+"serde_helper.rs"],[("shadow struct generation","serde_shadow_struct, serde_field_attribute, serde_derive_traits")],(),["shadow struct definition and its serde implementations"])
p("C27","Conflicting, misplaced or ill-typed arguments are compile errors",
 "Arguments of one exclusive group used together (public/private; copy/clone/as_ref; lazy with optional or inner_mut; fallible with lock, optional or inner_mut of the same field; sync/async with inner_mut or mode; serde with rc) and struct-only builder arguments on a field are rejected at compile time, as are unknown arguments and copy accessors of non-Copy types. The same arguments used without conflict, or with off, are accepted.",
 ["configurations","programs"],"all pairs of arguments in the exclusive groups, at both levels",
 "trybuild covers a few dozen error texts; a dropped group member or over-eager rejection elsewhere passes.",
 [FI,AR,AX+"util.rs",AX+"builder_helper.rs",AX+"accessor_helper.rs",AX+"serde_helper.rs","fieldx_derive_support/src/lib.rs"],[("validate_exclusives!, validate","aux and derive argument receivers")],(),["compiler verdict on accept/reject probe pairs"])
p("C28","Requested attributes land on exactly the requested generated items",
 "attributes_fn puts the listed attributes on the field's helper method (helper level over field level over struct level), attributes and attributes_impl on the builder struct and implementations, and user attributes on the struct and its fields are kept. No other generated item receives them.",
 ["configurations"],"all attribute arguments at all levels and helper kinds",
 "Attributes are mostly inert at run time, so tests do not notice a lost or misdirected one.",
 [CT,CG,SY,PL,AX+"attributes.rs"],[("attributes_fn, builder_attributes, all_attrs","codegen")],(),["attributes of generated items"])
p("C29","Generic structs keep their parameters, bounds and where clauses",
 "For structs with type, lifetime or const parameters (with inline bounds or where clauses) all generated items - helpers, Default, builder, lazy containers, serde shadow - carry the same parameters and bounds and work for every instantiation that satisfies them.",
 ["programs","configurations"],"all generic signatures and instantiations",
 "A couple of generic structs are instantiated with one type.",
 [CG,CT,SY,SE,"fieldx_derive/src/input_receiver.rs"],[("generics passthrough","split_for_impl, generic_params, struct_generic_params")],(),["generated generic items"])
p("C30","Fallible lazy fields report the builder's error through Result",
 "Every accessor (get, get_mut, reader) of a fallible lazy field returns Result with the declared error type (the field's own or else the struct-level default), Ok holding what the infallible accessor would return and Err exactly the builder's error. Infallible fields, including those with fallible(off), never return Result.",
 ["configurations","fault_sequences"],"all fallible configurations in every mode and accessor form",
 "Fallible tests cover a few accessor forms per mode.",
 [PL,SY,SP,AP,CT,XF],[("fallible_return_type, try_read/try_read_mut, get_or_try_init","codegen and containers")],(),["signatures and error paths of accessors"])
p("C31","Interior-mutable fields are modified through &self with RefCell discipline",
 "Helpers of an inner_mut field take &self: the accessor returns a shared borrow (or a copy/clone), the mutable accessor an exclusive borrow, the setter replaces the content, and the clearer and predicate take or test an optional content. No helper keeps a borrow after it returns other than in the guard it returns.",
 ["configurations","histories"],"all inner_mut configurations",
 "Only the basic combination is tested.",
 [PL],[("RefCell-based helpers","FXCodeGenPlain")],(),["signatures, results and borrow state of generated helpers"])
p("C32","Concurrency mode is resolved as declared, per struct and per field",
 "A field is handled as sync, async or plain according to its own mode arguments (sync, async, mode(...)), else implied by its lock/reader/writer or inner_mut arguments, else by the struct's mode; a struct is treated as sync if declared so or if a field requires it. Each way of spelling the same mode gives the same result.",
 ["configurations"],"all spellings and combinations of struct-level and field-level mode arguments",
 "Tests use sync and async at struct level and a few field-level overrides.",
 [FI,AR,XC,XF,CG],[("is_sync/is_async/is_rather_sync","argument receivers and contexts")],(),["storage types and signatures of generated items"])
p("C33","Async helpers complete their work before returning and lose no future",
 "Every helper of an async struct that needs a lock is an async method which, by the time it completes, has performed its whole effect; no internally created future is dropped without being awaited. Helpers that need no lock stay ordinary functions.",
 ["configurations","schedules"],"all async helpers over all configurations",
 "A forgotten await silently does nothing on paths that tests do not observe.",
 [SY,IA,AP,SE],[("async_decl/await_call","FXAsyncImplementor")],(),["futures created in generated code and containers"])
p("C34","Modes are available exactly with their crate features",
 "Using sync, async or serde arguments without the corresponding crate feature is rejected at compile time with a message naming the feature, and everything else works with any feature subset. With the feature on, the same code is accepted.",
 ["configurations"],"all feature subsets",
 "CI-style runs cover three feature sets with the code that fits them; rejection without the feature is not tested for each argument.",
 ["fieldx/Cargo.toml","fieldx/src/lib.rs",FI,AR,"fieldx_derive/src/util.rs"],[("feature_required","util.rs")],(),["compiler verdict per feature set"])
p("C35","Skipped fields are left alone",
 "A field marked skip keeps its type, gets no helper, builder setter or serde participation whatever the struct-level defaults say, and is initialized from its default expression or Default::default() by every constructor.",
 ["configurations"],"all struct-level settings combined with a skipped field",
 "One test combines skip with one struct-level setting.",
 [FI,XF,CT,CG,SE],[("is_skipped / unless_skip","fields.rs, field_methods")],(),["storage, helpers and initial state of skipped fields"])
p("C36","A helper touches only its own field",
 "No generated helper reads, writes, initializes, locks or clears any field other than the one it is named for, in structs with any number and mix of fields.",
 ["configurations","histories"],"all multi-field structs",
 "Tests check the target field and seldom the others.",
 [PL,SY,CT,CG],[("per-field code generation","field_methods")],(),["memory footprint of each helper"])
p("C37","Operations on shared objects never deadlock through the library's lock order",
 "No operation of the library waits for one lock while it holds another, unless every operation that can hold both takes them in one and the same order, whatever the order of its arguments. So any threads that compare, clone, print, read, write, clear or initialize shared objects and fields never block each other for good through fieldx's own locking. Operations that only read what is already there (read accessors of a set field, predicates, clone, equality, Debug) take shared access only, so holding a read guard never blocks them or makes them panic.",
 ["schedules","histories"],"all interleavings of operations on any two objects, in either argument order",
 "A deadlock needs two threads in opposite orders and writers queued between two acquisitions; no test compares shared containers concurrently.",
 [SP,SL,AP,AL],[("two-container operations (equality)","FXProxySync, FXRwLockSync, FXRwLockAsync: PartialEq"),("content lock before builder lock","FXProxySync::read_or_init, Clone")],
 [("value / builder","the two locks of a lazy container",SP)],["locks held at each blocking acquisition"])
p("C38","Argument types answer what was written in the attribute",
 "The public argument types of fieldx_aux (also used by other derive crates) answer exactly what their syntax said. is_true() is the opposite of `off`; is_true_opt() keeps absent apart from off; not_true() is its opposite. A value argument keeps its one literal of the right kind and parsed value, and value() gives it unless `off` is set; a missing, surplus or wrongly typed literal is an error, and flag-only arguments take none. Names, visibility (private wins over public), attributes, accessor mode, setter `into`, builder options and default are those given. FXSerdeHelper: needs_serialize/needs_deserialize follow their own argument, else the negation of the other one; is_serde() is false for `off`, absent when neither direction is given, else true unless both are off; without forward_attrs every attribute is accepted, otherwise the listed paths; default_value and shadow_name are those given, unless `off`. A tuple argument takes exactly its number of items, in order; a list takes MIN to MAX items. A nested argument hands a bare keyword to for_keyword, splits a list into literals (set_literals) and other items (from_list), each in order, and remembers the syntax it came from.",
 ["inputs"],"all values of the argument types and all shapes of the syntax they are read from",
 "Only the combinations of sub-arguments that appear in the test structs are ever read; the crate has no tests of its own, and several types are for other crates only.",
 [AX+x for x in ("value.rs","base_helper.rs","accessor_helper.rs","setter_helper.rs","builder_helper.rs","serde_helper.rs","default_arg.rs","fallible.rs","syn_value.rs","nesting_attr.rs","traits.rs","util.rs")],
 [("literal validation and storage","FXValueArg::set_literals"),("serde direction defaults","FXSerdeHelper::needs_serialize / needs_deserialize / is_serde"),("splitting of nested lists","FXNestingAttr::extract_literals")],
 [("off","explicitly disabled","every argument type"),("value","the literal given","FXValueArg")],["return value of each public query on every combination of stored parts"])
p("C39","Generated code means the same wherever the struct is declared",
 "A declaration that is accepted in an ordinary module is accepted, and its helpers behave the same, in a module whose own items and imports shadow names of the standard prelude (Option, Result, Some, None, Ok, Err, Default, Clone, Copy, Send, Sync, Box, String, Vec, drop, Into, ...): a user's `type Result<T>`, an imported `anyhow::Ok`, enum variants named None or Some, or a trait named Default change nothing. Exempt: serde's Serialize and Deserialize, which the user has to bring into scope, and names the user writes in the attribute, which mean what they mean at that place.",
 ["inputs"],"all declarations and all sets of shadowing names in the surrounding module",
 "No test declares a struct in a module which shadows a prelude name; only one that did, for the very helper concerned, could notice.",
 [PL,SY,SE,CT,CG,"fieldx_derive/src/ctx/field.rs"],
 [("generated paths","quote! templates of the code generators"),("builder construction and return values","FXRewriter builder_struct / fallible_ok_return")],
 [("prelude","names in scope everywhere in Rust unless shadowed","std::prelude")],["the compiler's verdict on the declaration","path summaries of the generated functions"])

p("C90","Every waiter for a lazy field eventually gets it",
 "A thread or task waiting for a lazy or lock-protected field eventually proceeds once current holders release it.",
 ["schedules"],"all fair schedules","Liveness depends on the lock implementation and scheduler.",[SP,AP],[("delegated to parking_lot and tokio",SP)])
p("C91","Serialized data round-trips to an equal object",
 "Deserializing what was serialized from an object yields an object with equal serde-visible content for every value and serde format.",
 ["inputs"],"all values and formats","A few JSON values are tried.",[SE],[("serde from/into",SE)])
p("C92","Macro expansion never panics or loops on any input",
 "For any syntactically valid struct and any attribute tokens the macro terminates with code or a spanned compile error, never a panic.",
 ["inputs"],"all token streams","Arbitrary token trees cannot be enumerated.",["fieldx_derive/src/lib.rs",AX+"nesting_attr.rs",AX+"attributes.rs"],[("darling parsing","fieldx_aux")])
p("C93","Error messages point at the offending argument",
 "Compile errors caused by fieldx arguments carry a span on, and a text naming, the offending argument.",
 ["programs"],"all erroneous programs","trybuild pins some texts.",[FI,AR,CT],[("with_span","derive")])
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
