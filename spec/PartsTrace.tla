---------------------------- MODULE PartsTrace ----------------------------
EXTENDS Parts, TraceCheck
=============================================================================
