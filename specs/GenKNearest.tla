---------------------------- MODULE GenKNearest ----------------------------
(* Every query over every small collection (the model's initial states).     *)
EXTENDS KNearest, TLC, Json
GInit == Init /\ part = {}
GSpec == GInit /\ [][UNCHANGED vars]_vars
Emit == PrintT(ToJson(<<d, lo, hi, k>>))
=============================================================================
