SPECIFICATION MCSpec
CONSTANTS
 Two = FALSE
 Embedded = {}
 ConfigOf <- MCConfigOf
INVARIANTS ReadyIsValid FailedIsInvalid NoStuck
