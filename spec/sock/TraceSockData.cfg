SPECIFICATION TSpec
CONSTANTS
  Slots = {1, 2, 3, 4, 5}
  Checks = {"data"}
INVARIANTS Prefix Linked
