SPECIFICATION Spec
CONSTANTS
  Eps = "0"
  MaxIter = 2
  Family = "small"
INVARIANTS VerdictTruthful StaysInside SlackExact NewtonStep LogMatches MuNonNegative MuDecreases MinimiserFound WellPosed GuessAsNamed FirstStep
