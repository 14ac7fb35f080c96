----------------------------- MODULE NodeListTrace -----------------------------
EXTENDS NodeList, TraceCheck
=============================================================================
