----------------------------- MODULE PageListTrace -----------------------------
EXTENDS PageList, TraceCheck
=============================================================================
