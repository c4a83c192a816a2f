---- MODULE TablesMCdefs ----
EXTENDS TablesMC
AllMax == {-1, 0, 1, 2}
====
