DEFAULT = ("Every obligation of the contracts tagged with this property is discharged by an SMT solver for all inputs, from the SSA of the current source. "
  "Trusted: govc itself, the go/ssa front end, the solvers, and the models of library functions listed in the evidence file.")
NA = {}
NOTE = {
 "C10": DEFAULT + " One clause is bounded, not proved: DeviceParams.Update's effect on the merged item list (after sorting) is checked concretely on generated lists (see the evidence file for how many); its count, its frame and everything else is proved.",
}
