---------------------------- MODULE PolyModelMC -----------------------------
EXTENDS PolyModel
Corners2 == {<<0, 0, 0>>, <<2, 0, 0>>, <<1, 3, 0>>, <<-1, 1, 0>>}
Monos2 == {<<1, 0, 0, 0>>, <<2, 1, 0, 0>>, <<-1, 2, 3, 0>>, <<3, 0, 5, 0>>, <<1, 1, 1, 0>>}
Corners3 == {<<0, 0, 0>>, <<2, 0, 1>>, <<1, 3, 0>>, <<0, 1, 2>>}
Monos3 == {<<1, 0, 0, 0>>, <<-2, 0, 0, 1>>, <<1, 2, 1, 2>>, <<3, 0, 4, 1>>}
Corners1 == {<<0, 0, 0>>, <<3, 4, 0>>, <<2, -1, 2>>, <<6, 8, 0>>}
Monos1 == {<<1, 0, 0, 0>>, <<2, 1, 1, 0>>, <<-1, 2, 3, 0>>, <<3, 0, 0, 5>>}
ProdOK == ProductRule
=============================================================================
