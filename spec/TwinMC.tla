------------------------------- MODULE TwinMC -------------------------------
EXTENDS Twin
=============================================================================
