----------------------------- MODULE AttrsTrace -----------------------------
EXTENDS Attrs, TraceCheck
=============================================================================
