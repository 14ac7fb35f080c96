----------------------------- MODULE StyleStoreTrace -----------------------------
EXTENDS StyleStore, TraceCheck
=============================================================================
