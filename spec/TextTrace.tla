----------------------------- MODULE TextTrace -----------------------------
EXTENDS Text, TraceCheck
=============================================================================
