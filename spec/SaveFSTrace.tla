---- MODULE SaveFSTrace ----
EXTENDS SaveFS, TraceCheck
====
