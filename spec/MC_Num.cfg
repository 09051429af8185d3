SPECIFICATION Spec
CONSTANTS
 MaxLen = 5
 Chars = {12295, 19968, 20108, 21313, 30334, 21315, 19975, 20740}
INVARIANTS ValueRight Canonical Digits Stable
CHECK_DEADLOCK FALSE
