----------------------------- MODULE SnapTrace ------------------------------
(* As ConcTrace, without its view: for sequential traces with crashes.       *)
EXTENDS ConcTrace
=============================================================================
