-------------------------------- MODULE MCDay --------------------------------
(* Exhaustive exploration of ApplianceDay on the small configurations of a file *)
EXTENDS ApplianceDay, Json, IOUtils
FileCfgs == JsonDeserialize(IOEnv.CFGS)
===============================================================================
