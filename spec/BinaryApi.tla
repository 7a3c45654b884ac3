------------------------------ MODULE BinaryApi ------------------------------
(* The trees of methods the harness offers *)
EXTENDS Naturals
I4 == <<"n", 4, TRUE>>
I2 == <<"n", 2, TRUE>>
U1 == <<"n", 1, FALSE>>
I8 == <<"n", 8, TRUE>>
S == <<"s">>
B == <<"b">>
F8 == <<"f8">>
M(args, res) == [args |-> args, res |-> res]
Point == <<"r", <<I2, U1, S>>>>
Deep == [kids |-> <<M(<<>>, <<"v">>), M(<<<<"o", S>>>>, <<"o", I4>>)>>]
Sub == [kids |-> <<M(<<B, F8, I8>>, <<"l", I8>>), Deep, M(<<<<"l", <<"l", I2>>>>>>, I4)>>]
Dynamic == [kids |-> <<M(<<I4, I4>>, I4), M(<<<<"l", S>>>>, S), Sub, M(<<I4>>, S), M(<<I4>>, I4), M(<<Point>>, Point)>>]
Object == [kids |-> <<M(<<>>, S), M(<<S>>, <<"v">>), M(<<U1, B>>, I8)>>]
One == M(<<S, U1>>, S)
Wide200 == [kids |-> [i \in 1..200 |-> M(<<U1>>, I4)]]
ApiNamed(n) == CASE n = "dynamic" -> Dynamic [] n = "object" -> Object [] n = "one" -> One [] n = "wide" -> Wide200
=============================================================================
