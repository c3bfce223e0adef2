SPECIFICATION Spec
INVARIANTS Supported Prefers NativeIsMax CompatFits FixedReaches AlignCovers CompatStable CrossConsistent CrossReflexive
PROPERTY Monotone
