--------------------------- MODULE ExtractMCdefs ---------------------------
EXTENDS ExtractMC
MCShapes == {<<1, 1>>, <<1, 3>>, <<3, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>}
MCShapes2 == {<<4, 3>>, <<3, 4>>}
GenShapes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 2>>, <<2, 3>>, <<1, 3>>, <<4, 1>>, <<1, 4>>}
=============================================================================
