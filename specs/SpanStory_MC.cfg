SPECIFICATION MCSpec
CONSTANT MaxOps = 5
INVARIANTS ContentInv Shown OrderMatters Dates
PROPERTIES StoryFrozen
CHECK_DEADLOCK FALSE
