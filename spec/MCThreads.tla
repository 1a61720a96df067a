----------------------------- MODULE MCThreads ------------------------------
EXTENDS Threads
Own == [t \in Threads |-> t]
One == [t \in Threads |-> 0]
=============================================================================
