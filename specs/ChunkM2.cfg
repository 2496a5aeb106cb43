SPECIFICATION Spec
CONSTANTS
  MaxPages = 2
  MaxTotal = 3
  FaultKinds = {"cuthead", "cutbody", "type", "nohead", "negsize", "big", "fits", "enc", "negn", "negus", "noreq"}
INVARIANTS Exact FilterOnce Counts EndsRight ErrRight NoFaulty Same
PROPERTIES Terminates Frozen
