c("C05","runtime monitoring: recorded concurrent histories checked for linearizability (porcupine) and ordered snapshot vectors",SAMP+" Interleavings come from the Go scheduler with injected delays, not from enumeration.")
c("C06","runtime monitoring: recording merge operator and conservation of unique tokens",SAMP)
c("C09","runtime monitoring with fault injection: SIGKILL of a writing process, prefix oracle on reopening",SAMP+" Kill points are random in time and in file system calls.","fault_enumeration")
c("C10","runtime monitoring with fault injection: system call trace replayed into crash images, prefix oracle on reopening",SAMP+" Crash model: unsynced file data is lost entirely; directory operations and sizes are durable at once.","fault_enumeration")
c("C14","Go race detector under a concurrent stress workload","Reports every data race of the executions that happened, whatever their effect; races that need an interleaving or call that never happened are not seen.")
c("C16","runtime monitoring: model-based oracle (cells to ids) compared after every lookup",SAMP+" The covering of an object is taken from the S2 library at the index level.")
c("C17","runtime monitoring: independently sampled points of the object as oracle for lookups",SAMP+" Points are sampled on vertices, edges and inside with an independent spherical geometry.")
c("C18","runtime monitoring: independent spherical distances as oracle for query results",SAMP+" Objects within rounding of the radius are not judged.")
c("C19","runtime monitoring: model-based oracle over points and cells at every level",SAMP)
c("C20","runtime monitoring: independent spherical distances as oracle for query results",SAMP+" Points within rounding of the radius are not judged.")
c("C21","runtime monitoring: interval arithmetic on degrees as oracle for query results",SAMP+" Points within rounding of a side are not judged.")
c("C22","runtime monitoring: model-based oracle over instants, windows and cells",SAMP)
c("C23","runtime monitoring: independent distances and intervals as oracle for query results",SAMP+" Objects within rounding of the border are not judged.")
c("C24","runtime monitoring: differential oracle, each index alone against all in one store",SAMP)
c("C25","runtime monitoring: scribbling and repeated comparison of returned slices",SAMP)
c("C26","runtime monitoring with fault injection: handle-tracking store wrapper",SAMP+" Every store call of every operation is failed once per case.")
c("C27","runtime monitoring with fault injection: failing-store wrapper, error-or-complete oracle",SAMP+" Every store call of every operation is failed once per case.")
c("C28","runtime monitoring with fault injection: all-or-nothing oracle over failing stores, killed processes and concurrent readers",SAMP)
c("C29","runtime monitoring: content comparison around refused requests",SAMP)
c("C30","runtime monitoring: round-trip oracle with an independent JSON reader",SAMP)
c("C31","runtime monitoring: deep-copy and bit comparison around every call, repeated calls compared",SAMP)
c("C32","runtime monitoring: independently sampled points and distances as oracle for coverings",SAMP)
c("C33","runtime monitoring: metamorphic comparison over spellings of one ring",SAMP)
c("C34","runtime monitoring: independently computed extremes and sampled points as oracle",SAMP)
c("C35","runtime monitoring: panic, CPU and memory monitor over hostile inputs",SAMP)
c("C36","runtime monitoring: independent parser as oracle",SAMP)
c("C37","runtime monitoring: multiset model as oracle",SAMP)
c("C38","runtime monitoring: independent JSON reader and cell geometry as oracle",SAMP)
c("C39","runtime monitoring: independent covering and JSON reader as oracle over HTTP answers",SAMP+" In process, and over the loopback network against the built cmd/mapdebugger.")
c("C40","runtime monitoring: census of goroutines, descriptors, mappings, locks, engine transactions, file sizes and heap around every closing",SAMP+" Badger's files and memory are watched after closing only.")
c("C41","runtime monitoring: one model per store, stores interleaved and concurrent",SAMP)
