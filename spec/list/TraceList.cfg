SPECIFICATION TSpec
INVARIANT OnlyOnce
