------------------------------- MODULE Keys -------------------------------
(***************************************************************************)
(* The key universe of the specification: all strings of length 1..MaxLen  *)
(* over the symbols 1..NSym, numbered 1..NK in lexicographic order, so     *)
(* that integer order IS key order.  The conformance driver maps symbols   *)
(* to byte strings with an order- and prefix-preserving substitution, so   *)
(* one abstract key stands for many concrete keys (any length, any bytes). *)
(*                                                                         *)
(* The tables are literals written by tools/mkkeys.py (TLC re-evaluates    *)
(* defined functions on every access, which is far too slow); TablesOK     *)
(* states what they mean and is checked by TLC before anything else.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS KeyStr,      \* index -> string
          PrefixesOf,  \* key -> its prefixes, itself included, longest first
          ExtsOf       \* key -> the keys it is a prefix of, itself included, ascending

RECURSIVE LexLT(_, _)
LexLT(a, b) == IF b = <<>> THEN FALSE
               ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] # b[1] THEN a[1] < b[1]
               ELSE LexLT(Tail(a), Tail(b))
NK     == Len(KeyStr)
Keys   == 1..NK
Range(s) == {s[i] : i \in DOMAIN s}
IsPre(p, k) == Len(KeyStr[p]) <= Len(KeyStr[k]) /\ SubSeq(KeyStr[k], 1, Len(KeyStr[p])) = KeyStr[p]
TablesOK ==
    /\ \A i \in 1..NK - 1 : LexLT(KeyStr[i], KeyStr[i + 1])
    /\ Len(PrefixesOf) = NK /\ Len(ExtsOf) = NK
    /\ \A k \in Keys : /\ Range(PrefixesOf[k]) = {p \in Keys : IsPre(p, k)}
                       /\ \A i \in 1..Len(PrefixesOf[k]) - 1 : PrefixesOf[k][i] > PrefixesOf[k][i + 1]
                       /\ Range(ExtsOf[k]) = {e \in Keys : IsPre(k, e)}
                       /\ \A i \in 1..Len(ExtsOf[k]) - 1 : ExtsOf[k][i] < ExtsOf[k][i + 1]
ASSUME TablesOK
LastExt(p) == ExtsOf[p][Len(ExtsOf[p])]

(***************************************************************************)
(* Query points.  Besides the keys themselves, the driver looks up strings *)
(* that lie between keys:                                                  *)
(*   kind 1  the key s itself                                              *)
(*   kind 2  s followed by a piece that all symbols start with (ends       *)
(*           inside a compressed edge)                                     *)
(*   kind 3  the predecessor of s: above every key smaller than s          *)
(*   kind 4  s followed by bytes above every extension of s                *)
(***************************************************************************)
Kinds == 1..4
===========================================================================
