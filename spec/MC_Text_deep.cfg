CONSTANTS Max = 4
          BytesOf = "many"
INIT Init
NEXT Next
INVARIANTS Decodes Roundtrip TrimOk CutOk FallbackOk
CHECK_DEADLOCK FALSE
