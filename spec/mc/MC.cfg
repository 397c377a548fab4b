SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT RoundTrips
INVARIANT Outcomes
INVARIANT UserErrors
INVARIANT Kinds
INVARIANT UnknownKeys
INVARIANT Shape
INVARIANT Repeats
INVARIANT Invisible
