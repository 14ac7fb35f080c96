----------------------------- MODULE PackageTrace -----------------------------
EXTENDS Package, TraceCheck
=============================================================================
