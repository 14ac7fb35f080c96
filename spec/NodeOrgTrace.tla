----------------------------- MODULE NodeOrgTrace -----------------------------
EXTENDS NodeOrg, TraceCheck
=============================================================================
