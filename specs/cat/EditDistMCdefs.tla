---- MODULE EditDistMCdefs ----
EXTENDS EditDistMC
W3 == {<<97>>, <<98>>, <<97, 98>>}
W4 == {<<97>>, <<97, 98>>, <<98, 97, 97>>}
====
