-------------------------- MODULE AlignmentMCdefs --------------------------
EXTENDS AlignmentMC
MCShapes == {<<1, 3>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<1, 1>>, <<0, 2>>, <<2, 0>>, <<0, 0>>}
MCShapes2 == {<<3, 3>>, <<2, 4>>}
GenShapes == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>}
=============================================================================
