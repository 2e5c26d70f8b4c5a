---- MODULE MCWriteProtocol ----
EXTENDS WriteProtocol
====
