----------------------------- MODULE NamesTrace -----------------------------
EXTENDS Names, TraceCheck
=============================================================================
