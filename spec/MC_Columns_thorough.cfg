SPECIFICATION Spec
VIEW View
CONSTANT NZ = 3
CONSTANT NX = 2
INVARIANT BelowIsNothing
INVARIANT DifferencesAddUp
INVARIANT AllAbsorbed
INVARIANT OnlyTheOcean
INVARIANT BottomIsLast
INVARIANT BottomAddsUp
INVARIANT ColumnSums
INVARIANT MeansLie
INVARIANT MeanOfMeans
INVARIANT SurfaceIsFirst
INVARIANT Sea
INVARIANT HalvesFit
CHECK_DEADLOCK FALSE
