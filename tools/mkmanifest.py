import json
T="deterministic simulation with fault injection: "
A=" Sampled, not enumerated. Trusted: the simulator (scheduler, heap, call-outs), the reference model in sim/simwork, rustc's access instrumentation. Interleavings are sequentially consistent."
C={
"C01":("seeded scheduling of caller threads at every memory access and futex call, stalls, spurious wake-ups; step-bounded progress and deadlock detection",
       "Seeded exploration of interleavings of up to 5 callers on the real Hall-set cache, locks included; every call must return within a step budget."),
"C02":("seeded scheduling of racing first requests and growth; shared-growth visibility checked over the recorded history and in an epilogue through every handle",
       "Seeded exploration against an executable Hall-basis model; visibility of completed growth is checked through every handle handed out."),
"C03":("seeded scheduling of lookups racing with growth; linearizability of the recorded history against an independently computed Hall basis",
       "Every answer is compared with a Hall basis computed from the definition; the answered/not-answered history must be linearizable with growth."),
"C04":("seeded scheduling plus callers killed in mid-growth by allocation failures; survivors' answers against the model, no hang",
       "Death of a caller at seeded allocation points inside growth, in seeded interleavings; survivors are judged by the model."),
"C05":("operation histories with injected panics in coefficient, basis and stream callbacks and allocation failures; per-coefficient old-or-new and exact results against a reference model",
       "Dense, sparse and wrapped vectors over exact (prime-field), f32 and f64 coefficients; values kept exactly representable."),
"C06":("interrupt-and-retry histories; operand snapshots and results against a reference model",
       "All operations returning new vectors, with failures at seeded callbacks/allocations and a retry."),
"C07":("tensor-product histories with injected failures; multiset of pair contributions against a word-concatenation model",
       "Alphabets 1..26, partial and unequal degrees, all product forms, cut short at seeded points."),
"C08":("exp/fmexp/log calls interrupted at seeded callbacks and repeated, against truncated power series over a prime field",
       "Exact comparison over a prime field for maximal degrees 0..6; floating point is not compared (rounding)."),
"C09":("coefficient life-cycle ledger over histories cut short by injected failures",
       "Every coefficient is an instrumented object; double release, use after release and leaks are detected."),
"C10":("misbehaving streams (early end, resumption, wrong hints, death at any element) against a reference model",
       "Dense, sparse and wrapped vectors."),
"C11":("writers failing at a seeded byte (whole or partial writes) and coefficients failing to render, then a retry",
       "Vectors and keys over ten alphabets/fields up to full key depth."),
"C12":("seeded scheduling of threads at every memory access on shared operands; each result against the exact one, and alone in a fresh process before it counts",
       "A deviation counts only if the same operation succeeds when run alone, so arithmetic bugs do not alarm here."),
"C13":("safe but inconsistent caller-supplied bases, keys, vectors, borrows, coefficients and streams plus injected failures; every library access checked against a shadow heap",
       "Checked: instrumented heap accesses of library code (loads, stores, memcpy), releases, fatal signals. Stack accesses are not shadowed."),
"C14":("the same history replayed under several injected hash seeds and total collision, observations compared",
       "2 to 4 replicas per run; entropy comes from the simulator."),
}
NA={"N01":"Pure function of its input: no schedule, fault, time or I/O can influence index arithmetic. The part that vectors and rendering rely on is exercised as a by-product of C05-C12, but generating inputs is not simulation.",
"N02":"Pure function of its input (bit packing of words); no nondeterminism or fault reaches it.",
"N03":"Pure function of two keys; no nondeterminism or fault reaches it.",
"N04":"Pure function of width and degree; what the shared Hall sets make of it under concurrency is C03.",
"N05":"Pure functions of two floats; no schedule or fault reaches them.",
"N06":"Pure functions of a vector; the hash-seed dependent part of equality is C14."}
m={"version":1,"setup_cmd":"bash tools/build.sh",
"hooks":{"guard":"--cfg verif_sim","enable":"RUSTC_WRAPPER=/verif/tools/rustc-wrap.sh adds --cfg verif_sim (and access call-outs) to the crates rustyalgebra, lazy_static and simwork; tools/build.sh does it","source_commits":["741dc9f2f750f50c7940f9aada5cbd2a9adf26f9","5a091dcec9c30ce2002e1c2365356db87ba30b5f"]},
"checks":[{"property":k,"quick_cmd":f"bash check.sh {k} quick","thorough_cmd":f"bash check.sh {k} thorough","evidence_file":f"evidence/{k}.json","technique":T+t,"level":"exploration","level_note":n+A} for k,(t,n) in C.items()],
"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
"notes":"Replays: build/debug/simcli replay FILE. See DESIGN.md."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
