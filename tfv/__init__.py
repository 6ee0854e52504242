"""Solver-based checking of tf-encrypted: TF graphs traced from the real code are
executed symbolically over bit-vectors and the properties are decided by SMT."""
