SPECIFICATION TSpec
CONSTANT Threads <- T1
