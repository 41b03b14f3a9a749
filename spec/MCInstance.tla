---------------------------- MODULE MCInstance ----------------------------
EXTENDS Instance
PatternsQP == <<1, 1, 2>>
=============================================================================
