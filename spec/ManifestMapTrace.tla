----------------------------- MODULE ManifestMapTrace -----------------------------
EXTENDS ManifestMap, TraceCheck
=============================================================================
