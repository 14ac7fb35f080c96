----------------------------- MODULE AddressTrace -----------------------------
EXTENDS Address, TraceCheck
=============================================================================
