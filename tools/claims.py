LAY = "Decided on the compiler's own answers (trait solver, layout_of) for every impl of IStable in the crate graph instantiated over pools of argument types plus annotated witness types; generic claims are decided on instances, not for all arguments. Trusts rustc nightly's layout for x86_64 linux (the same the stable compiler uses) and the rules in lib/layoutrules.py."
CHECKS = {
 "C01": ("type-level query: advertised associated types vs layout_of", LAY),
 "C02": ("type-level query: advertised niches vs the layout tree's valid ranges and used bytes", LAY),
 "C03": ("type-level query: claimed niche count vs the compiler's niche and Option layout", LAY),
 "C04": ("type-level enumeration of payload pairs with overlap and separation rules", "For every ordered pair of a pool of ~116 payload types, the determinant, shifts and residual niches the trait solver selects are checked against the layout of both payloads. Pairs outside the pool are not covered."),
 "C22": ("normalisation of type-level terms vs arithmetic", "Every associated operation of the type-level numbers is normalised by the trait solver on complete small operand grids and compared with integer arithmetic; larger operands by a boundary set."),
 "C32": ("type-level query: pointer leaves of the layout tree vs ContainsIndirections", LAY),
 "C10": ("trait-solver table: Send/Sync of every public type per combination of its parameters' markers", "Every public type of the library (table in lib/p_c10.py) is instantiated with parameters that are Send/!Send and Sync/!Sync in every combination, and the solver's Send and Sync answers are compared with what the type's role (owns, borrows, shares, atomic) permits, in both directions. Six known unsound rows of Dyn<Arc> are listed as known findings. A type added later is not in the table."),
 "C11": ("compile-fail witnesses with compiling twins; lifetime rules over every public signature; variance table", "About 190 programs that keep, duplicate or stretch a borrow must be rejected while their twins compile; every safe public function's result lifetimes must come from its arguments and not outlive its receiver's borrow; every type giving mutable or interior access must be invariant. Covers what the type system sees: unsafe code handing out a wrong borrow with a right signature is left to C19/C23."),
 "C12": ("compile-fail witnesses with compiling twins at every boundary macro; type-checker queries on which impls refuse unstable parameters", "About 500 programs putting an unstable type at each position of each boundary macro must be rejected while 92 stable twins compile; every IStable impl of the crate graph is asked whether it accepts unstable (char) arguments for each of its type parameters; every field of the `#[stabby]` types must be IStable. Out of scope: layouts of foreign types whose IStable impl is an unsafe promise by the user."),
 "C25": ("taint over MIR from caller-chosen raw pointers; tables of unsafe functions, promise traits and encapsulated types; compile-fail witnesses", "Every safe public function of the library given a raw pointer (directly or through public fields) is checked not to dereference it, pass it to unsafe code or keep it; none of the 77 functions now unsafe may become callable safely, no encapsulated field public. Promise traits and the table are listed by hand. 15 genuine violations are listed as known findings."),
  "C06": ("type-level dataflow: evaluated reports vs declarations and vs each other; path-sensitive dataflow over the comparison's MIR", "The report of every IStable impl instantiated over argument pools, of some 130 witness declarations differing in one respect each and of every type of the library declared with the attribute is evaluated by the front end; reports generated by the attribute must say exactly what is declared, types the library means to be different must not share a report, and different reports must not share an identifier. Every accepting path of TypeReport::is_compatible must have established equality of name, module, version, kind and every field (count, names, types)."),
  "C24": ("type-level queries under seven configurations, compared", "The library and a witness crate are type-checked under seven configurations that together switch every cargo feature and cfg, both profiles and the nightly-only code; for each of ~5800 types the layout the compiler computes, the advertised layout, the evaluated report and (for ~370) the identifier must be equal."),
  "C07": ("path-sensitive dataflow over MIR of the checked imports, the dynamic loader and the macros' expansions", "Every path of CheckedImport, CanariedImport, the libloading extension and of the functions the export macro emits that hands out a symbol must contain the acceptance that justifies it (the checker's Some for the local report, a state only reachable through it, every required canary found); the comparison itself must have compared every part of both reports on accepting paths. Loops are followed twice. Memory orderings are C14's."),
  "C08": ("join of exported and imported symbols of the macros' expansions by name, type and convention; dataflow over published reports and canary callers", "A witness crate exports 18 functions and imports them checked and under all 64 canary selections; the driver reads every symbol, signature, convention and initialiser from the compiler and joins the two sides and the loader's lookups. Signatures outside the witness are assumed to be handled like these, since the macros treat types as opaque tokens."),
}
CHECKS.update({
 "C13": ("ledger of shares over every MIR path of the functions that handle counted pointers", "Every function of the library that touches a count, makes or ends a handle, or converts between handles and raw pointers is followed along every path (calls inlined, loops twice; the recursive tree insertion more shallowly): shares held by what goes in plus counter changes must equal shares held by what comes out, contents are destroyed exactly when the last strong share ends, blocks freed exactly when the last weak one does, and no strong share appears without one being held. Raw-pointer functions are held to their contracts. Six races and leaks of the atomic pointers are listed as known findings; two registry insertions exceed the path bound and are not decided."),
 "C14": ("role of every atomic operation on every MIR path against its ordering", "On the paths of C13 and of the checked imports, each atomic operation's role (gives a share up, last one to, tells it is the only owner, publishes a pointer or a cell, reads one to follow it) is derived from what the path does with it and compared with its ordering; orderings passed by callers of the atomic pointers likewise. Five operations that take any ordering from safe callers are known findings. Assumes Rust's memory model; two registry insertions are judged only by the orderings they pass."),
})
CHECKS.update({
 "C09": ("what fills each vtable slot against what each dispatching method calls, path by path in MIR", "Every vtable constructor of the library and of a witness crate covering the trait macro (receivers, argument counts and types, generics, defaults, overrides, several bounds, closures of every arity, futures, allocators) is evaluated: each slot must hold the implementing type's own function of that name and signature, and every dispatching method must reach exactly that slot with the object's data pointer and its arguments in order. Also: destructors, pointer access of every IPtr, walks to a trait's table, into_super, downcasts, equality of tables, forwarding. Assumes slots are reached through the library's accessors; user unsafe code is out of scope."),
 "C23": ("path analysis of MIR: in-place access to shared contents dominated by a sole-ownership test", "On every path of every function that touches counted blocks: a write to contents or bookkeeping, a move out, a mutable reference passed on or handed out, or a block handed to an owner requires both counters found at one on that path. That the two counters are read one after the other is listed as a known finding. No impl may give a shared handle unconditional mutable access."),
})
TODO = "not built yet"
NA = {p: TODO for p in ["C%02d" % i for i in range(1, 33)]}
