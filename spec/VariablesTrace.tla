----------------------------- MODULE VariablesTrace -----------------------------
EXTENDS Variables, TraceCheck
=============================================================================
