------------------------------ MODULE FilterMC ------------------------------
EXTENDS Filter
MCHash == { (1 :> <<1, 2>> @@ 2 :> <<2, 3>>) }
=============================================================================
