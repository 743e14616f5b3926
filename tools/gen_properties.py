#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for titles/statements/anchors)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

A = "stabby-abi/src/"
M = "stabby-macros/src/"
S = "stabby/src/"

p("C01", "Advertised size and alignment are the real ones",
  "For every type the library declares ABI-stable, the size and the alignment it advertises at type level equal the size and alignment the compiler gives that type, whatever type parameters it is instantiated with. This covers primitives, references, pointers, collections, smart pointers, guards, vtables, arrays, tuples, and structs, unions and enums annotated by the user.",
  ["programs", "configurations"], "every stable type, for every instantiation of its parameters, in every feature configuration",
  "Tests look at a few dozen hand-picked structs; the claim is made by ~150 impls, most of them generic, and every layout the library computes is built on top of them.",
  [A+"stable_impls/mod.rs", A+"istable.rs", A+"num.rs", A+"fatptr.rs", A+"result.rs", A+"option.rs", A+"vtable/mod.rs", M+"structs.rs", M+"enums.rs", M+"unions.rs"],
  [("IStable::Size/Align associated types", A+"istable.rs"), ("check!, primitive impls", A+"stable_impls/mod.rs"), ("#[stabby] struct/enum/union layout expansion", M+"structs.rs")])

p("C02", "Advertised niches and padding are really unused",
  "A stable type never advertises as forbidden a bit pattern that one of its valid values can take, and never advertises as unused a byte or bit that one of its values stores information in. Anything packed into those niches therefore cannot corrupt, or be mistaken for, a value.",
  ["programs", "inputs"], "every stable type, every valid value of it",
  "A wrong niche only shows for the one value that collides with it, in a composite type that happens to use that niche; tests construct very few such combinations.",
  [A+"stable_impls/mod.rs", A+"istable.rs", M+"structs.rs", M+"enums.rs", A+"typenum2/unsigned.rs"],
  [("IStable::ForbiddenValues / UnusedBits", A+"istable.rs"), ("PadByte/Saturator/Tuple shift of niches by field offset", A+"istable.rs")])

p("C03", "Native Option/Result declared stable only where Rust guarantees the layout",
  "The library declares Rust's own option and result types (and Rust-niche guarantees of other types) as stable only for payloads for which the compiler really applies the single-niche layout the library advertises. A type never claims to have exactly one Rust-visible niche, or none, when the compiler sees something else.",
  ["programs"], "every stable type used as payload of a native option or result",
  "The unit tests check a handful of payloads; the claim is a per-type constant that is easy to get wrong for wrappers that hide or add niches.",
  [A+"stable_impls/mod.rs", A+"istable.rs", M+"structs.rs", M+"enums.rs", M+"unions.rs"],
  [("HasExactlyOneNiche", A+"istable.rs"), ("impl IStable for core::option::Option / core::result::Result", A+"stable_impls/mod.rs")])

p("C04", "Stable sum types never confuse variants or overlap the tag with payload",
  "For any pair of payload types, a stable result or option built as one variant is always reported as that variant and gives back that very payload: the place where the variant is recorded never overlaps information stored by the payload of the variant being held, and writer and reader of the tag agree. Both payloads lie inside the storage, aligned for their type.",
  ["programs", "inputs"], "every pair of payload types (layout, niche and padding combinations) and every payload value",
  "Which tag encoding is selected depends on type-level computation over both payloads; tests reach about thirty pairs out of an unbounded family and a few values of each.",
  [A+"result.rs", A+"option.rs", A+"enums/mod.rs", A+"enums/err_non_empty.rs", A+"enums/err_size_0.rs", A+"istable.rs", A+"typenum2/unsigned.rs"],
  [("IDeterminantProvider selection", A+"enums/mod.rs"), ("BitIsErr/ValueIsErr/Not determinants", A+"enums/mod.rs"), ("niche exporters", A+"enums/err_non_empty.rs")])

p("C05", "Access to a sum type's payload keeps variant and payload consistent",
  "Obtaining a payload of a stable result or option (by reference, by mutable guard, by value, by matching) only ever hands out the payload of the variant actually held, and when mutable access ends the variant tag is re-established for that same variant on every path, including when user code panics. Dropping the sum type drops exactly the payload of the held variant, once, and consuming it does not drop it again.",
  ["programs", "inputs", "fault_sequences"], "every access path (match_ref, match_mut, match_owned, conversions, drops, panics in callbacks)",
  "Only a payload whose mutation touches the bytes of its own niche, or a callback that panics, exposes a missing re-establishment or a double drop.",
  [A+"result.rs", A+"option.rs", A+"enums/mod.rs", A+"alloc/single_or_vec.rs", A+"future.rs"],
  [("OkGuard/ErrGuard Drop", A+"result.rs"), ("match_* family", A+"result.rs"), ("Drop for Result", A+"result.rs")])

p("C06", "Different types have different ABI reports and identifiers",
  "Two stable types that differ in anything their binary interface depends on (name, module, version, kind of type, any field's name, order, number or type, enum tag layout, function arity or argument types) never compare as compatible, and get different identifiers. A type is always compatible with itself.",
  ["programs"], "every pair of type declarations",
  "The existing tests compare a few reports for equality; they do not cover each component of the report separately and cannot range over pairs of declarations.",
  [A+"report.rs", A+"lib.rs", M+"structs.rs", M+"enums.rs", M+"unions.rs", M+"functions.rs", M+"traits.rs", A+"stable_impls/mod.rs"],
  [("TypeReport::is_compatible", A+"report.rs"), ("gen_id / hash_report", A+"report.rs"), ("REPORT constants emitted by the macros", M+"structs.rs")])

p("C07", "A symbol is only handed out after its type report or canary was accepted",
  "An imported or dynamically loaded symbol that is advertised as checked is only ever dereferenced or returned after the exporter's report was compared with the importer's and found compatible; when they differ, the caller gets an error carrying the mismatch and no callable symbol. A symbol imported with compiler canaries is only returned when every canary the importer asked for is present in the library.",
  ["programs", "schedules", "configurations"], "every symbol, library and order of first uses, including concurrent first uses",
  "The example programs exercise one matching library; the mismatch paths, missing canaries and concurrent initialisation are never run.",
  [A+"checked_import.rs", S+"libloading.rs", M+"functions.rs"],
  [("CheckedImport::as_ref validation state", A+"checked_import.rs"), ("StabbyLibrary::get_stabbied / get_canaried", S+"libloading.rs"), ("export/import expansion", M+"functions.rs")])

p("C08", "Exports and imports agree on names, signatures and canaries",
  "Every exported function is accompanied by exactly the companion symbols that the importing and the dynamic-loading side look up, under the same names; the report it publishes is that of its own signature, and the import side declares the same calling convention and signature it checks. Asking for a canary always produces a link-time reference to it.",
  ["programs", "configurations"], "every exported function signature and every set of canary options",
  "Only two exported functions exist in the examples; name mangling, canary selection and the report handed out are not compared for other shapes.",
  [M+"functions.rs", M+"lib.rs", S+"libloading.rs", M+"utils.rs", M+"build.rs" if False else "stabby-macros/build.rs"],
  [("export expansion, `_stabbied_v3` accessors", M+"functions.rs"), ("CanarySpec", M+"functions.rs"), ("symbol suffixes", S+"libloading.rs")])

p("C09", "A call through a stable trait object reaches the right method",
  "Calling a method on a stable trait object runs the implementation that the object's concrete type has for that very trait method, with the receiver pointing at the object and the arguments in order, for every trait, number of methods and combination of traits in the object. Destruction through the object runs the destructor of the concrete type exactly once; downcasting or upgrading succeeds only for the type the object was built from.",
  ["programs"], "every stable trait, implementor and trait combination",
  "Tests call a few methods of three or four traits; a slot swapped for a method nobody calls, or for the second trait of a composition, is invisible to them.",
  [M+"traits.rs", A+"vtable/mod.rs", A+"fatptr.rs", A+"closure.rs", M+"gen_closures.rs"],
  [("vtable struct, construction and dispatch expansion", M+"traits.rs"), ("VTable, VtDrop, HasDropVt", A+"vtable/mod.rs"), ("Dyn / DynRef", A+"fatptr.rs")])

p("C10", "Types cross threads only when that is sound",
  "A type of the library may be sent to, or shared with, another thread only when everything it owns, borrows or shares permits it: shared ownership needs contents that are both sendable and shareable, unique ownership and exclusive borrows pass their contents' markers through, the allocator counts as owned, and type-erased objects carry the markers their trait list states. Conversely types built from thread-safe parts stay usable across threads.",
  ["programs", "schedules"], "every generic type of the library and every combination of thread-safety of its parameters",
  "Markers are compile-time facts about all instantiations; a wrong one makes no test fail until a data race happens.",
  [A+"alloc/boxed.rs", A+"alloc/sync.rs", A+"alloc/vec.rs", A+"alloc/mod.rs", A+"fatptr.rs", A+"vtable/mod.rs", A+"result.rs", A+"slice.rs", A+"future.rs", S+"libloading.rs"],
  [("unsafe impl Send/Sync", A+"alloc/boxed.rs"), ("HasSendVt/HasSyncVt", A+"vtable/mod.rs")])

p("C11", "Safe borrows handed out never outlive or alias what they point into",
  "No safe program can use the library to keep a reference, guard, slice, iterator, trait object or imported symbol beyond the life of what it points into, to obtain two mutable borrows or a shared and a mutable borrow of the same contents, or to shorten or lengthen a lifetime hidden in a mutable container or a trait object. Such programs are rejected at compile time, while their well-scoped twins compile.",
  ["programs"], "every safe client program",
  "Tests contain only programs that compile; soundness is about the ones that must not.",
  [A+"fatptr.rs", A+"slice.rs", A+"str.rs", A+"result.rs", A+"option.rs", A+"alloc/vec.rs", A+"alloc/sync.rs", A+"alloc/boxed.rs", A+"as_mut.rs", A+"checked_import.rs", S+"libloading.rs"],
  [("lifetimes in public signatures", A+"fatptr.rs"), ("guards' lifetimes", A+"result.rs"), ("variance of pointer wrappers", A+"alloc/sync.rs")])

p("C12", "Only stable types and signatures pass the ABI boundary checks",
  "An annotated function, struct, union, enum or (when declared `checked`) trait is accepted only when everything that crosses the binary boundary through it is itself ABI-stable and has a representation and calling convention that is fixed; otherwise compilation fails. Valid declarations keep compiling.",
  ["programs"], "every annotated item",
  "Rejection can only be observed by programs that do not compile, of which the test suite has none.",
  [M+"lib.rs", M+"functions.rs", M+"structs.rs", M+"enums.rs", M+"unions.rs", M+"traits.rs", A+"istable.rs", A+"lib.rs"],
  [("IStable bounds emitted by the macros", M+"functions.rs"), ("repr and calling-convention checks", M+"utils.rs")])

p("C13", "Reference counts match the number of handles",
  "For shared pointers, slices and their weak handles, every way of creating a handle (construction, clone, upgrade, downgrade, conversion, raw round trip) adds exactly one to the count of its own kind, and every way of ending one removes exactly one. The pointee is destroyed exactly when the last strong handle ends, the allocation is released exactly when no handle of any kind is left, and a weak handle never resurrects a destroyed pointee.",
  ["histories", "schedules", "programs"], "every sequence and interleaving of handle operations",
  "A leak or an extra decrement appears only on operation sequences, failure paths or interleavings that sampled tests do not take.",
  [A+"alloc/sync.rs", A+"alloc/mod.rs", A+"fatptr.rs", A+"alloc/collections/arc_btree.rs"],
  [("strong/weak counters in the allocation prefix", A+"alloc/mod.rs"), ("Clone/Drop/upgrade/downgrade/into_raw", A+"alloc/sync.rs")])

p("C14", "Atomic operations carry the ordering their role needs",
  "Giving up a share of an object happens with release semantics and whoever then destroys it, or is told it is the only owner, has acquired all those releases; publishing a pointer or a validation state to other threads is a release, and reading it back to dereference is an acquire. This holds on every path of every shared pointer, atomic pointer, checked import and vtable registry.",
  ["schedules"], "every interleaving under the language's weak memory model",
  "On the x86 machines tests run on, missing ordering is not observable at all.",
  [A+"alloc/sync.rs", A+"checked_import.rs", A+"vtable/mod.rs", A+"alloc/collections/arc_btree.rs", A+"future.rs"],
  [("orderings of atomic operations on counters", A+"alloc/sync.rs"), ("VALIDATED state", A+"checked_import.rs"), ("VTABLES registry", A+"vtable/mod.rs")])

p("C15", "Blocks are freed once, by the allocator and with the layout they came from",
  "Every block obtained from an allocator is handed back exactly once, to the same allocator value, with the pointer the allocator returned (not an interior one), on every path that stops owning it; the owner's allocator is itself kept alive until then and then dropped once. Growing or shrinking copies no more than the smaller of the two sizes.",
  ["programs", "histories", "fault_sequences"], "every owner type, element type, allocator and path, including failure paths",
  "The test allocator does not detect mismatches, and tests never fail an allocation or use over-aligned, empty or zero-sized contents with a custom allocator.",
  [A+"alloc/mod.rs", A+"alloc/allocators/rust_alloc.rs", A+"alloc/allocators/libc_alloc.rs", A+"alloc/boxed.rs", A+"alloc/vec.rs", A+"alloc/sync.rs"],
  [("AllocPtr/AllocSlice alloc, realloc, free", A+"alloc/mod.rs"), ("Drop impls of owners", A+"alloc/boxed.rs")])

p("C16", "Allocation failure is reported, never dereferenced, and loses nothing",
  "Whenever an allocator reports failure, fallible operations return an error that gives back every value they were given and leave the container as it was, and infallible ones stop the program; no path uses a null or missing block. Sizes are computed so that a request that overflows the address space is treated as failure too.",
  ["fault_sequences", "inputs"], "every allocation site and every failure position",
  "Allocation never fails in the tests.",
  [A+"alloc/mod.rs", A+"alloc/vec.rs", A+"alloc/boxed.rs", A+"alloc/sync.rs", A+"alloc/string.rs", A+"alloc/single_or_vec.rs", A+"alloc/allocators/rust_alloc.rs", A+"alloc/allocators/libc_alloc.rs"],
  [("try_* API family", A+"alloc/vec.rs"), ("null checks in alloc/realloc", A+"alloc/mod.rs")])

p("C17", "Each value owned by a container is dropped or given back exactly once",
  "Every value moved into a collection, box, shared pointer, option, result or future wrapper is either given back to the caller or dropped, exactly once, on every normal path through the library, including conversions between containers, partial iteration, draining, truncation, swapping and removal.",
  ["histories", "programs", "inputs"], "every operation of every owning type, every element count and index",
  "Double drops and leaks need element types with observable drops at particular counts and positions; the tests mostly store plain integers.",
  [A+"alloc/vec.rs", A+"alloc/boxed.rs", A+"alloc/sync.rs", A+"alloc/single_or_vec.rs", A+"alloc/string.rs", A+"result.rs", A+"future.rs", A+"as_mut.rs"],
  [("mem::forget / ptr::read pairs", A+"alloc/vec.rs"), ("Drop impls", A+"alloc/boxed.rs")])

p("C18", "A panic in user code never leads to a double drop or use of dead contents",
  "When a destructor, clone, comparison, iterator, closure or constructor supplied by the user panics inside a library operation, every container involved is left so that unwinding and later use touch only live values; at worst values are leaked.",
  ["fault_sequences", "programs"], "every call-out to user code in every operation, and every position at which it may panic",
  "No test panics inside a callback.",
  [A+"alloc/vec.rs", A+"alloc/sync.rs", A+"alloc/boxed.rs", A+"result.rs", A+"as_mut.rs", A+"alloc/single_or_vec.rs", A+"iter.rs"],
  [("length updated before destructors run", A+"alloc/vec.rs"), ("make_into style constructors", A+"alloc/boxed.rs")])

p("C19", "Element accesses stay within the initialised part of the buffer",
  "Every element a sequence container reads, drops or hands out lies below its length, every element it writes lies inside its allocated capacity, and the length it records afterwards counts exactly the initialised elements, for every index, count and range the caller may pass, including zero-sized elements and empty containers.",
  ["inputs", "histories"], "every index, range, length and capacity",
  "Off-by-one errors need boundary indices and boundary capacities, which the tests sample at a few values.",
  [A+"alloc/vec.rs", A+"alloc/mod.rs", A+"slice.rs", A+"alloc/boxed.rs", A+"alloc/sync.rs", A+"alloc/single_or_vec.rs"],
  [("Vec push/insert/remove/drain/truncate/extend", A+"alloc/vec.rs"), ("AllocSlice length", A+"alloc/mod.rs")])

p("C20", "Wakers and futures cross the boundary with their own functions and counts",
  "A waker passed across the boundary wakes the task it came from through the matching clone, wake, wake-by-reference and drop functions, each consuming or borrowing as its name says, with the allocator it was created with; converting back and forth adds and removes as many shares as wakers exist. A polled stable future reports ready exactly when the underlying future does, and never polls, reads or drops it after completion.",
  ["histories", "schedules", "programs"], "every executor, future and sequence of waker operations",
  "The single async test uses one executor, one allocator and never counts shares.",
  [A+"future.rs", A+"result.rs", A+"option.rs"],
  [("StableWaker vtables", A+"future.rs"), ("IFuture::poll, MaybeResolved", A+"future.rs")])

p("C21", "Stable strings always hold valid UTF-8",
  "No safe operation can create or leave a stable string or string slice whose bytes are not valid UTF-8: they are only built from existing strings or validated bytes, cut or extended only with whole strings, and give safe code no way to write arbitrary bytes into them.",
  ["inputs", "programs"], "every safe sequence of string operations",
  "Tests use a few ASCII strings.",
  [A+"alloc/string.rs", A+"str.rs", A+"alloc/sync.rs", S+"allocs/borrow.rs"],
  [("private inner buffer of String/Str", A+"alloc/string.rs"), ("conversions", A+"str.rs")])

p("C22", "Type-level arithmetic computes the right numbers",
  "The type-level unsigned integers and booleans on which all layouts are computed give the mathematically correct result for every operation (addition, subtraction, shifts, bitwise operations, comparisons, min/max, power-of-two tests, padding to alignment, truncation, conversion to values), and reject undefined ones.",
  ["inputs", "programs"], "all operands",
  "The test module samples a few hundred random pairs for some of the operations; layout bugs need specific operands.",
  [A+"typenum2/unsigned.rs", A+"typenum2/mod.rs", "stabby-abi/build.rs"],
  [("IUnsigned/IBit operation impls", A+"typenum2/unsigned.rs")])

p("C23", "Contents shared by several handles are never mutated in place",
  "A mutable reference or in-place edit of shared contents is only possible when the handle is the only one of any kind; otherwise the operation copies first or reports failure, so no change made through one handle is visible through another one.",
  ["histories", "schedules", "programs"], "every sequence of clone, downgrade and mutation",
  "Needs a second handle held at the moment of the mutation, on each mutating path.",
  [A+"alloc/sync.rs", A+"alloc/collections/arc_btree.rs", A+"fatptr.rs"],
  [("get_mut / make_mut / is_unique", A+"alloc/sync.rs"), ("copy-on-write nodes", A+"alloc/collections/arc_btree.rs")])

p("C24", "ABI of a type does not depend on how the library is configured",
  "A given type has the same advertised layout, the same report and the same identifier whatever cargo features, cfgs or debug settings the library is built with, so that binaries built with different configurations can still talk to each other. Where a configuration documents that it replaces a type (unsafe wakers), the replacement has a different report.",
  ["configurations", "programs"], "every supported configuration and every type available in both",
  "Every test run uses a single configuration and cannot compare two of them.",
  [A+"lib.rs", A+"stable_impls/mod.rs", A+"alloc/mod.rs", A+"num.rs", A+"report.rs"],
  [("cfg-gated impls", A+"stable_impls/mod.rs")])

p("C25", "Operations that trust a raw pointer or a promise stay unsafe to call",
  "Every public operation that dereferences, takes ownership of, or frees memory through a raw pointer given by the caller, skips a check, or assumes a fact it does not verify, can only be called in an unsafe context; and every trait whose implementors make such promises can only be implemented with an unsafe impl.",
  ["programs"], "every safe client program",
  "Tests call these operations from unsafe blocks, which keep compiling when the marker is lost.",
  [A+"alloc/mod.rs", A+"alloc/boxed.rs", A+"alloc/sync.rs", A+"alloc/vec.rs", A+"slice.rs", A+"str.rs", A+"fatptr.rs", A+"result.rs", A+"option.rs", A+"istable.rs", A+"vtable/mod.rs", A+"checked_import.rs"],
  [("unsafe fn / unsafe trait markers", A+"fatptr.rs")])

p("C26", "The vtable registry hands out one permanent matching table per request",
  "Where vtables are built at run time, a request for the table of a type and trait always gets a table equal to the one built for that request, which is never freed, moved or modified afterwards, and failing to record it in the shared registry never frees a table that was already handed out.",
  ["schedules", "programs"], "every set of concurrent requests",
  "Races between first requests and the registry's failure paths are not exercised.",
  [A+"vtable/mod.rs"],
  [("insert_vtable, VTABLES", A+"vtable/mod.rs")])

p("C27", "Conversions, comparisons and formatting follow the equivalent Rust type",
  "Converting between a stable container or sum type and its Rust counterpart keeps variant, order, length and contents, and comparing, hashing or printing a stable value gives what the Rust counterpart holding the same contents gives.",
  ["inputs", "programs"], "every value",
  "Tests compare a few values, mostly through equality itself.",
  [A+"result.rs", A+"option.rs", A+"slice.rs", A+"str.rs", A+"alloc/vec.rs", A+"alloc/string.rs", A+"alloc/boxed.rs", A+"alloc/sync.rs", A+"num.rs", S+"time.rs"],
  [("From impls and delegated trait impls", A+"result.rs")])

p("C28", "The ordered sets and maps behave like a mathematical set or map",
  "For any history of insertions and lookups, the shared B-tree set and map contain exactly the inserted entries, in order, each reachable by lookup, with replaced entries returned.",
  ["histories", "inputs"], "every history and key order",
  "Tests insert a few thousand random integers.",
  [A+"alloc/collections/arc_btree.rs"],
  [("ArcBTreeSetNodeInner::insert, get, iter", A+"alloc/collections/arc_btree.rs")])

p("C29", "Atomic shared pointers behave as if operations happened one at a time",
  "Concurrent loads, stores, swaps and compare-exchanges of an atomic shared pointer or copy-on-write map are linearizable: each takes effect at one instant, no handle is lost and none is used after its object was destroyed.",
  ["schedules", "histories"], "every interleaving",
  "There is no concurrent test.",
  [A+"alloc/sync.rs", A+"alloc/collections/arc_btree.rs"],
  [("AtomicArc", A+"alloc/sync.rs"), ("AtomicArcBTreeSet::edit", A+"alloc/collections/arc_btree.rs")])

p("C30", "Time values convert and compute without changing the represented instant",
  "Stable durations, instants and system times represent the same quantity as the Rust values they are converted from and back, arithmetic follows Rust's, and the atomic duration never loses or mixes parts.",
  ["inputs"], "every representable value",
  "Tests sample a few conversions.",
  [S+"time.rs"], [("Duration/Instant/SystemTime/AtomicDuration", S+"time.rs")])

p("C31", "Bit-limited integers hold exactly the values their width allows",
  "An integer limited to fewer bits can be built from, and gives back, exactly the values of that width; its limits, comparisons and conversions agree with them.",
  ["inputs"], "every value and width", "No test covers the limits.",
  [A+"num.rs"], [("masked integer types", A+"num.rs")])

p("C32", "A plain-old-data proof is only given to types without pointers",
  "A type the library accepts as plain old data, because it claims to contain no indirection, holds no pointer, reference or function pointer anywhere in its representation, directly, in a field, in a union's field, in an array or in a payload of a sum type.",
  ["programs"], "every stable type and every annotated user type",
  "Existing tests never look at the claim; it is derived per type at type level, so one wrong link in the derivation only shows for the types that use it.",
  [A+"istable.rs", A+"stable_impls/mod.rs", A+"vtable/mod.rs", A+"result.rs", M+"structs.rs", M+"enums.rs", M+"unions.rs"],
  [("IStable::ContainsIndirections and IPod", A+"istable.rs"), ("ContainsIndirections of wrappers, unions, sum types", A+"result.rs")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
