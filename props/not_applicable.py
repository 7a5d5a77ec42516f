from config import na
PURE = "a pure function of its arguments: it has no schedule, clock, I/O, callback, allocation or shared state for a simulator to decide, so only input generation would be left, which is a different technique"
