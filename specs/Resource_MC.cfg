SPECIFICATION MCSpec
CONSTANTS
  MaxText = 6
  Alphabet = {97, 61, 34, 92, 44, 32}
  KeyAl = {45, 97, 98}
  ValAl = {32, 34, 44, 61, 92, 97}
  MaxVal = 2
  MaxLab = 2
  MaxDet = 3
INVARIANTS RoundTrip Padded Total FirstWins Assoc
CHECK_DEADLOCK FALSE
