---- MODULE KeyTab22 ----
\* generated by tools/mkkeys.py: 2 symbols, strings up to length 2
TabStr == <<<<1>>, <<1, 1>>, <<1, 2>>, <<2>>, <<2, 1>>, <<2, 2>>>>
TabPre == <<<<1>>, <<2, 1>>, <<3, 1>>, <<4>>, <<5, 4>>, <<6, 4>>>>
TabExt == <<<<1, 2, 3>>, <<2>>, <<3>>, <<4, 5, 6>>, <<5>>, <<6>>>>
====
