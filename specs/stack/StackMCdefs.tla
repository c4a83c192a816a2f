----------------------------- MODULE StackMCdefs -----------------------------
EXTENDS StackMC
Cls(s) == IF s = 1 THEN {1} ELSE IF s = 2 THEN {1, 2} ELSE {2}
Cls1(s) == {IF s <= 2 THEN 1 ELSE 2}
==============================================================================
