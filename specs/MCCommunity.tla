------------------------------ MODULE MCCommunity ------------------------------
EXTENDS Community, Json, IOUtils
FileComms == JsonDeserialize(IOEnv.CFGS)
===============================================================================
