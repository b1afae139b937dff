SPECIFICATION Spec
CONSTANTS
  Eps = "0"
  MaxIter = 1
  Family = "small"
INVARIANTS VerdictTruthful StaysInside SlackExact NewtonStep LogMatches MuNonNegative MuDecreases MinimiserFound WellPosed GuessAsNamed FirstStep
