---- MODULE AnlpMCdefs ----
EXTENDS AnlpMC
V2 == {<<97>>, <<97, 98>>}
V3 == {<<97>>, <<98>>, <<97, 98>>}
====
