CLAIMED.update({
 "C11": ("property-based testing, differential between three builds, thread counts and precomputation widths", "Widths beyond 9 (thorough: 11) are not explored, for their memory."),
 "C07": ("property-based testing: recovery from generated cell sets compared with a reference model and with the prover", BLST),
 "C08": ("property-based testing against an independent reference decoder", BLST),
 "C09": ("property-based testing with generated structural faults; the outcome follows from a validity predicate", "Structural validity is decided by a few lines of the harness."),
 "C10": ("property-based testing with generated encodings around the boundary of validity", "Validity of random point encodings is decided by blst's own checked decoder; constructed invalid classes are checked against it."),
 "C12": ("stateful property-based testing: generated call histories and concurrent programs against a stateless model", BLST + " Interleavings are those the operating system produces."),
 "C17": ("property-based testing: generated setups and documents with injected defects against a known-secret model", BLST),
 "C18": ("property-based testing: transforms at every size against a recursive transform and direct evaluation; ring laws against convolution", BLST),
 "C19": ("property-based testing: erasure sets, garbage and corruption at every size; every accepted word is compared with all survivors", BLST),
 "C20": ("property-based testing against known discrete logarithms", BLST + " Points and sums are compared through their logarithms."),
 "C21": ("property-based testing against one-by-one operations and known discrete logarithms", BLST),
 "C22": ("property-based testing over generated parameters with known secrets: quotients by polynomial division, exact truth of openings", BLST),
 "C13": ("property-based testing: generated calls and call histories on guarded memory, differential against the Rust library", "The C functions are called through the shared library as a C program would; the Rust library is the reference."),
 "C14": ("property-based testing: generated calls and histories in a Java virtual machine, differential against the Rust library", "The Rust library is the reference."),
 "C15": ("property-based testing: generated calls, histories and concurrent asynchronous calls in Node, differential against the Rust library", "The Rust library is the reference. Interleavings are those Node and the operating system produce."),
 "C16": ("property-based testing: generated calls and histories with collections and goroutines, differential against the Rust library", "The Rust library is the reference. Collections and interleavings are those the Go runtime produces under constant forced collection."),
 "C23": ("property-based testing: generated calls and context lifetimes repeated and varied; the invariant is that what is still allocated does not grow", "Allocations are counted by the global allocator (Rust) and by a preloaded allocator that attributes them by the caller's address (bindings)."),
 "C24": ("property-based testing: generated inputs, metamorphic comparison of processor time and peak memory with those of honest inputs of the same size", "Processor time is compared by the least of repeated measurements, with a margin of three; memory is counted exactly by the global allocator."),
})
