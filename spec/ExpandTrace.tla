----------------------------- MODULE ExpandTrace -----------------------------
EXTENDS Expand, TraceCheck
=============================================================================
