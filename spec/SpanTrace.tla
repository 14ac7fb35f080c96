----------------------------- MODULE SpanTrace -----------------------------
EXTENDS Span, TraceCheck
=============================================================================
