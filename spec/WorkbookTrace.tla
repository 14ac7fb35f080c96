----------------------------- MODULE WorkbookTrace -----------------------------
EXTENDS Workbook, TraceCheck
=============================================================================
