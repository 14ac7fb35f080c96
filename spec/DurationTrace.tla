----------------------------- MODULE DurationTrace -----------------------------
EXTENDS Duration, TraceCheck
=============================================================================
