N["C13"] = ("Bounded: histories of up to four steps with observers after each, clones and clone_from at every fill 0..32 (also onto "
            "used destinations), both continued; all keys, bytes, CPU features; seven (quick) configurations and targets.")
N["C14"] = ("Bounded: same stream under different chunkings, backends and targets, and restore-then-checkpoint of arbitrary canonical "
            "states; every fill; all 164 bytes compared; absorbed bytes absent by dependency of every output term.")
N["C15"] = ("Bounded: interleavings of up to three hashers' histories, shared builders, reuse of storage, thread migration, and "
            "preemption before each access to shared mutable memory (context bound one); all keys and bytes.")
N["C18"] = ("Bounded lengths (0..33, selected, every length constant of the code up to 5000) with symbolic alignment and contents; an "
            "unbounded call-graph obligation (no allocator reachable) covers the other lengths; no_std linked without an allocator.")
N["C16"] = ("All configurations: every subset of features, every rustc target, target features the sources mention, debug "
            "assertions and other cfg atoms (test and doc excluded); z3 decides presence conditions, rustc's forced unsafe_code lint "
            "confirms. Trusts that lint; portable path = files defining the portable types, what they expand and name.")
TECHS["C16"] = "presence conditions of unsafe code over build configurations, decided by z3; witnesses confirmed by rustc's forced unsafe_code lint and the debug IR's call graph"
N["C17"] = ("Bounded: IR for powerpc64 and powerpc (big endian), i686 and wasm32 (32 bit), aarch64, against x86_64; all keys and bytes, "
            "lengths 0..99 plus selected, every fill, arbitrary restored checkpoints, cross-target hops.")
