---- MODULE KVMC ----
\* exhaustive check of the abstract contract with small constants
EXTENDS KV, KeyTab22
CONSTANT MaxOps
Bound == n <= MaxOps
====
