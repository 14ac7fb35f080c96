----------------------------- MODULE DocStoreTrace -----------------------------
EXTENDS DocStore, TraceCheck
=============================================================================
