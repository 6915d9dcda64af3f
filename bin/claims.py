CT = ("; programs drawn by TLC run on the real code under a controlled scheduler with stale reads, and on real threads; "
      "every distinct history validated by TLC against the specification")
N = ("The real headers run with the standard primitives replaced at compile time by a scheduler choosing interleavings and permitted stale reads "
     "(falls back to real threads only when that build is impossible). Schedules are sampled or bounded. ")
CONF = ("Every operation of every replayed behaviour is decided by TLC against the specification, on the real headers (ASan, UBSan and library assertions on). ")
MORE = {
 "C09": ("TLA+ specification HandlePool.tla" + CT, "model_checking", N),
 "C10": ("TLA+ specification Schedule.tla" + CT, "model_checking", N),
 "C11": ("TLA+ specification Schedule.tla (access footprints)" + CT, "model_checking", N + "All ordered pairs of 43 kinds of systems are run."),
 "C12": ("TLA+ specification Tasks.tla" + CT, "model_checking", N),
 "C13": ("TLA+ specification ParallelFor.tla" + CT, "model_checking", N),
 "C14": ("TLA+ specification Deque.tla (model-checked)" + CT, "model_checking", N),
 "C15": ("TLA+ specification Maps.tla; exhaustive model of the table (RobinHood.tla) refines it and is replayed transition by transition", "model_checking",
         CONF + "Exhaustive in the model for 4 keys and tables of up to 8 buckets under 4 distributions of hashes; sampled on the code beyond."),
 "C16": ("TLA+ specification Maps.tla; exhaustive model of the table (SparseDense.tla) refines it and is replayed transition by transition", "model_checking",
         CONF + "Non-negative keys of several key types."),
 "C17": ("TLA+ specification CompSets.tla; exhaustive model of the bitset (BitSets.tla) refines it and is replayed transition by transition", "model_checking",
         CONF + "Ids up to 20000 in sets, 20 component types in registries."),
 "C18": ("TLA+ specification Alloc.tla; exhaustive model of the arenas (Arena.tla) refines it and is replayed transition by transition", "model_checking",
         CONF + "Stack alignments up to 128, releases in reverse order."),
 "C19": ("TLA+ specification TypeIds.tla: orders of loading, unloading and asking drawn by TLC run on real binaries, traces validated by TLC", "model_checking",
         "Binaries built from the real headers by gcc and clang, default and hidden visibility, with and without an engine library. One known finding: types of the same name in unnamed namespaces."),
}
