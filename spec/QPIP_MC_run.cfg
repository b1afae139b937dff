SPECIFICATION Spec
CONSTANTS
  Eps = "0x1p-52"
  MaxIter = 40
  Family = "small"
INVARIANTS VerdictTruthful StaysInside LogMatches MuNonNegative MuDecreases MinimiserFound WellPosed NeverExhausts
