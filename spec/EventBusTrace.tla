----------------------------- MODULE EventBusTrace -----------------------------
EXTENDS EventBus, TraceCheck
=============================================================================
