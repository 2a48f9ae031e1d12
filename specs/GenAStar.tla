------------------------------ MODULE GenAStar ------------------------------
EXTENDS AStar, Json
GSpec == Init /\ [][UNCHANGED vars]_vars
Emit == PrintT(ToJson(<<N, E, S, h, limit>>))
=============================================================================
