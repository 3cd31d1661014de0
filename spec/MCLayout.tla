------------------------------ MODULE MCLayout ------------------------------
EXTENDS Layout
SomePrimes == <<5, 7, 11, 13>>
=============================================================================
