SPECIFICATION Spec
CONSTANTS
  MaxPages = 3
  MaxTotal = 4
  FaultKinds = {"cuthead", "cutbody", "type", "nohead", "negsize", "big", "fits", "enc", "negn", "negus", "noreq"}
INVARIANTS Exact FilterOnce Counts EndsRight ErrRight NoFaulty Same
PROPERTIES Terminates Frozen
