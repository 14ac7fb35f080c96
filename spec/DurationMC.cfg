SPECIFICATION Spec
CONSTANTS
  Apply <- DurationApply
  St0 <- DurationNull
  MaxDepth = 1
  EmitOn = FALSE
  Chars = {"P", "1", "0", "Y", "M", "D", "T", "H", "S", ",", "-"}
  MaxLen = 3
  Prefixes <- QuickPrefixes
  Days = {0, 1, 9, 30, 365, 12345, 999999999}
  Secs = {0, 1, 59, 60, 61, 3599, 3600, 3661, 43200, 86399}
  Micros = {0, 1, 99, 100, 101, 9999, 10000, 123456, 500000, 999900, 999999}
  Years = {1, 999, 1000, 1900, 1999, 2000, 2011, 2012, 2100, 9999}
VIEW View
PROPERTIES RejectedKeeps
CHECK_DEADLOCK FALSE
