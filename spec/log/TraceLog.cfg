SPECIFICATION TSpec
CONSTANT Threads <- T5
