----------------------------- MODULE FrameTrace -----------------------------
EXTENDS Frame, TraceCheck
=============================================================================
