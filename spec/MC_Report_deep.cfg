INIT RInit
NEXT RNext
CONSTANTS Basics = {0, 1, 2, 4, 7, 13, 16, 18, 23, 24, 32}
          Exts = {0, 1, 4, 8, 29, 32, 38}
          Hyps = {0, 1, 3}
          Across <- AcrossDeep
INVARIANTS SectionsPresent Shape StartsWell Caches RawExact
CHECK_DEADLOCK FALSE
