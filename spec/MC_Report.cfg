INIT RInit
NEXT RNext
CONSTANTS Basics = {0, 2, 16, 32}
          Exts = {1, 38}
          Hyps = {0, 3}
          Across <- AcrossQuick
INVARIANTS SectionsPresent Shape StartsWell Caches RawExact
CHECK_DEADLOCK FALSE
