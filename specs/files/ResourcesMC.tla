---------------------------- MODULE ResourcesMC ----------------------------
EXTENDS Resources
P == <<"m", "m", "f", "f">>
=============================================================================
