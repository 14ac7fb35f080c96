----------------------------- MODULE BodyOrderTrace -----------------------------
EXTENDS BodyOrder, TraceCheck
=============================================================================
