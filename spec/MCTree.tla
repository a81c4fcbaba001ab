------------------------------- MODULE MCTree -------------------------------
EXTENDS WormTree
MCView == <<leaves, meta>>
=============================================================================
