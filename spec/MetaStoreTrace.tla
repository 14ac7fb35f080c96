----------------------------- MODULE MetaStoreTrace -----------------------------
EXTENDS MetaStore, TraceCheck
=============================================================================
