SPECIFICATION Spec
CONSTANT
  MaxSteps = 8
INVARIANT Same LettersBack Distinct Cells Decoding
CHECK_DEADLOCK FALSE
