------------------------------ MODULE MCTables ------------------------------
EXTENDS Tables
Without == ~HandedIsRight
=============================================================================
