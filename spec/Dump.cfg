INIT DumpInit
NEXT DumpNext
CHECK_DEADLOCK FALSE
