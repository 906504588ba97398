---- MODULE KeyTab23 ----
\* generated by tools/mkkeys.py: 2 symbols, strings up to length 3
TabStr == <<<<1>>, <<1, 1>>, <<1, 1, 1>>, <<1, 1, 2>>, <<1, 2>>, <<1, 2, 1>>, <<1, 2, 2>>, <<2>>, <<2, 1>>, <<2, 1, 1>>, <<2, 1, 2>>, <<2, 2>>, <<2, 2, 1>>, <<2, 2, 2>>>>
TabPre == <<<<1>>, <<2, 1>>, <<3, 2, 1>>, <<4, 2, 1>>, <<5, 1>>, <<6, 5, 1>>, <<7, 5, 1>>, <<8>>, <<9, 8>>, <<10, 9, 8>>, <<11, 9, 8>>, <<12, 8>>, <<13, 12, 8>>, <<14, 12, 8>>>>
TabExt == <<<<1, 2, 3, 4, 5, 6, 7>>, <<2, 3, 4>>, <<3>>, <<4>>, <<5, 6, 7>>, <<6>>, <<7>>, <<8, 9, 10, 11, 12, 13, 14>>, <<9, 10, 11>>, <<10>>, <<11>>, <<12, 13, 14>>, <<13>>, <<14>>>>
====
