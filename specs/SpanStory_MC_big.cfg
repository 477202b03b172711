SPECIFICATION MCSpec
CONSTANT MaxOps = 6
INVARIANTS ContentInv Shown OrderMatters Dates
PROPERTIES StoryFrozen
CHECK_DEADLOCK FALSE
