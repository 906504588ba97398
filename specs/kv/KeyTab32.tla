---- MODULE KeyTab32 ----
\* generated by tools/mkkeys.py: 3 symbols, strings up to length 2
TabStr == <<<<1>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3>>, <<3, 1>>, <<3, 2>>, <<3, 3>>>>
TabPre == <<<<1>>, <<2, 1>>, <<3, 1>>, <<4, 1>>, <<5>>, <<6, 5>>, <<7, 5>>, <<8, 5>>, <<9>>, <<10, 9>>, <<11, 9>>, <<12, 9>>>>
TabExt == <<<<1, 2, 3, 4>>, <<2>>, <<3>>, <<4>>, <<5, 6, 7, 8>>, <<6>>, <<7>>, <<8>>, <<9, 10, 11, 12>>, <<10>>, <<11>>, <<12>>>>
====
