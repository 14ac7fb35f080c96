----------------------------- MODULE TableTrace -----------------------------
EXTENDS Table, TraceCheck
=============================================================================
