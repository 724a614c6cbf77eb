"""List the repairs in known-findings.txt (commit ids come from /repo's log)."""
import subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {
 "copying and cloning": "C33 get(copy)/get(clone) of an async lock field did not await the lock and did not compile",
 "mutable accessors of async": "C33 get_mut of an async lock field did not await the lock and did not compile",
 "sync mutable accessor takes": "C17 get_mut of sync fields took visibility and attributes of get",
 "clearer of an optional sync": "C12 clearer of an optional, lock(off) field did not compile",
 "fallible has no effect": "C30 struct-level fallible turned accessors of fields that are not lazy into code that does not compile",
 "inner_mut(off) does not": "C32 inner_mut(off) made a plain field sync",
 "clone(off) and copy(off)": "C13 clone(off)/copy(off) on a field did not override the struct in plain structs",
 "skipped fields are not required": "C35 skipped fields had to be Copy under a struct-level get(copy)",
 "initial values of skipped": "C35 defaults of skipped fields were wrapped in locks or cells",
 "builder initializes skipped": "C35 builder left skipped fields out",
 "Self in default values": "C19 Self in a sync field's default did not compile in the builder",
 "as_ref accessor of an optional sync": "C13 get(as_ref) of a sync optional, lock(off) field did not compile",
 "comparing a container": "C07 x == x on FXProxySync, FXRwLockSync and FXRwLockAsync acquired the lock twice",
 "as_ref accessor of an interior": "C13 get(as_ref) of an inner_mut, optional field did not compile",
 "mode(async) of a field": "C32 mode(async) on a field made it plain",
 "sync field of an async struct": "C32 explicit sync on a field of an async struct was ignored",
 "a struct is sync if any": "C32 only the first field with an explicit mode decided whether the struct is sync",
 "lazy fields of a struct with optional": "C32 struct-level optional turned lazy fields into optional lazy ones that do not compile",
 "fields without a builder setter": "C21 build() required values of fields that have no builder setter",
 "bare default of a sync lazy": "C27 bare default on a sync lazy or optional field panicked the macro",
 "fallible post_build of a ref": "C24 fallible post_build of a reference-counted struct did not compile",
 "lazy fields of a struct with inner_mut": "C32 struct-level inner_mut applied to lazy fields, which then did not compile",
 "serialization of an optional sync": "C25 serialization of an optional, lock(off) sync field did not compile",
 "fields with serialize(off)": "C25 a field with serialize(off) made the serialization of its struct not compile",
 "deserialization of a struct without": "C25 deserialization of a no_new struct with a field that is not deserialized did not compile",
 "generated code does not depend on prelude": "C39 a struct declared in a module which shadows Ok, Some, None, Default, Send or Copy did not compile",
 "struct-level attributes are for": "C26 struct-level serde attributes were repeated on every shadow field",
 "string literal of a field-level serde": "C26 serde(\"name\") of a field was ignored",
 "serde support for generic structs with inline": "C29 serde of a generic struct with inline bounds did not compile",
 "builder of generic structs that are": "C29 builder of a generic struct with rc or parameter defaults did not compile",
 "builder of generic structs with parameters": "C29 builder of a generic struct with a parameter only used by a skipped field did not compile",
 "Default and new() of a struct": "C19 a struct with no fields did not compile: new() without Default",
 "private(off) of a helper": "C27 public with private(off) within a helper argument was rejected",
 "mode(sync) and mode(async) req": "C34 mode(sync)/mode(async) without the crate feature was accepted or failed with unresolved names",
 "serde support for generic structs with param": "C29 serde of a generic struct with a parameter only used by fields out of the shadow was rejected",
 "comparing two lock-protected": "C37 a == b and b == a on lock and lazy containers in two threads could block each other for good",
 "serde support asked for Default": "C25 serde of a struct with an inner_mut field whose type is not Default did not compile",
 "reading an initialized async": "C37 a second read of a set async lazy field, made while the guard of the first is alive, never completed",
 "attributes with values or paths": "C28 attributes_fn(must_use = \"...\") or attributes(a::b) panicked the macro: the list was split at any punctuation",
 "helpers of fields with raw ident": "C16 get, builder setters and helpers with an empty prefix of a field called r#type did not compile",
}
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()]
out = [l for l in open(V + "/known-findings.txt") if l.startswith("finding:")] if os.path.exists(V + "/known-findings.txt") else []
for h, s in log:
    if s.startswith("fix:"):
        k = [v for k, v in P.items() if s[5:].startswith(k)]
        if len(k) != 1: print("no entry for", s); continue
        p, w = k[0].split(" ", 1)
        out.append("fixed: property=%s %s %s\n" % (p, h[:12], w))
open(V + "/known-findings.txt", "w").writelines(out)
