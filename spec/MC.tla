---- MODULE MC ----
EXTENDS BigFileMC
DCols == {<<1>>}
DStripings == {<<>>, <<2, 0, 1>>, <<0, 1, 2>>}
DGrowths == {<<0, 1>>}
DDTs == {<<"<i4", "<i4">>}
D2DTs == {<<"<i4", "<i4">>, <<">i4", "<f8">>}
NCols == {<<1>>, <<1, 2>>, <<2>>, <<3, 2>>, <<3, 4>>, <<3, 1000>>, <<0>>, <<3, 0>>}
ACols == {<<1>>, <<0>>}
AVals == { [dt |-> "<i4", n |-> 1, vals |-> <<7>>, raw |-> EncodeSeq("<i4", <<7>>)],
           [dt |-> ">f8", n |-> 0, vals |-> <<>>, raw |-> <<>>],
           [dt |-> "<S3", n |-> 2, vals |-> <<65, 66>>, raw |-> EncodeSeq("<S3", <<65, 66>>)] }
One == {<<1>>}
None == {}
GStripings == {<<>>, <<1>>, <<0, 2>>}
GGrowths == {<<>>, <<1>>, <<0, 1>>}
ICols == {<<1>>, <<1, 2>>}
IVals == { [dt |-> "<i4", n |-> 1, vals |-> <<7>>, raw |-> EncodeSeq("<i4", <<7>>)] }
====
