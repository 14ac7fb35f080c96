----------------------------- MODULE CellValueTrace -----------------------------
EXTENDS CellValue, TraceCheck
=============================================================================
