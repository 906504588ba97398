---- MODULE KeyTab24 ----
\* generated by tools/mkkeys.py: 2 symbols, strings up to length 4
TabStr == <<<<1>>, <<1, 1>>, <<1, 1, 1>>, <<1, 1, 1, 1>>, <<1, 1, 1, 2>>, <<1, 1, 2>>, <<1, 1, 2, 1>>, <<1, 1, 2, 2>>, <<1, 2>>, <<1, 2, 1>>, <<1, 2, 1, 1>>, <<1, 2, 1, 2>>, <<1, 2, 2>>, <<1, 2, 2, 1>>, <<1, 2, 2, 2>>, <<2>>, <<2, 1>>, <<2, 1, 1>>, <<2, 1, 1, 1>>, <<2, 1, 1, 2>>, <<2, 1, 2>>, <<2, 1, 2, 1>>, <<2, 1, 2, 2>>, <<2, 2>>, <<2, 2, 1>>, <<2, 2, 1, 1>>, <<2, 2, 1, 2>>, <<2, 2, 2>>, <<2, 2, 2, 1>>, <<2, 2, 2, 2>>>>
TabPre == <<<<1>>, <<2, 1>>, <<3, 2, 1>>, <<4, 3, 2, 1>>, <<5, 3, 2, 1>>, <<6, 2, 1>>, <<7, 6, 2, 1>>, <<8, 6, 2, 1>>, <<9, 1>>, <<10, 9, 1>>, <<11, 10, 9, 1>>, <<12, 10, 9, 1>>, <<13, 9, 1>>, <<14, 13, 9, 1>>, <<15, 13, 9, 1>>, <<16>>, <<17, 16>>, <<18, 17, 16>>, <<19, 18, 17, 16>>, <<20, 18, 17, 16>>, <<21, 17, 16>>, <<22, 21, 17, 16>>, <<23, 21, 17, 16>>, <<24, 16>>, <<25, 24, 16>>, <<26, 25, 24, 16>>, <<27, 25, 24, 16>>, <<28, 24, 16>>, <<29, 28, 24, 16>>, <<30, 28, 24, 16>>>>
TabExt == <<<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>>, <<2, 3, 4, 5, 6, 7, 8>>, <<3, 4, 5>>, <<4>>, <<5>>, <<6, 7, 8>>, <<7>>, <<8>>, <<9, 10, 11, 12, 13, 14, 15>>, <<10, 11, 12>>, <<11>>, <<12>>, <<13, 14, 15>>, <<14>>, <<15>>, <<16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30>>, <<17, 18, 19, 20, 21, 22, 23>>, <<18, 19, 20>>, <<19>>, <<20>>, <<21, 22, 23>>, <<22>>, <<23>>, <<24, 25, 26, 27, 28, 29, 30>>, <<25, 26, 27>>, <<26>>, <<27>>, <<28, 29, 30>>, <<29>>, <<30>>>>
====
