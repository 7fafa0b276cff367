CONSTANTS Max = 4
          BytesOf = "few"
INIT Init
NEXT Next
INVARIANTS Decodes Roundtrip TrimOk CutOk FallbackOk
CHECK_DEADLOCK FALSE
