----------------------------- MODULE CopiesTrace -----------------------------
EXTENDS Copies, TraceCheck
=============================================================================
