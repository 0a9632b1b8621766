BASE = 'Every obligation generated from the current sources must be discharged for all inputs; doubles are treated as reals, ints as mathematical integers, loops partially correct; trusted: the symbolic executor with its Eigen/STL model, the prover and the SMT solvers. The native harness only searches for failing inputs and is not counted.'
NA = {}
LEVEL = {}
TECH = {}
NOTE = {}
