SPECIFICATION TSpec
INVARIANT TypeOK
