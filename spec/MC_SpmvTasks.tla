---------------------------- MODULE MC_SpmvTasks ----------------------------
EXTENDS SpmvTasks, TLC, TLCExt, Json, IOUtils
Small == <<3, 2>>
One == <<4>>
Mixed == <<4, 1, 2>>
Wide == <<5, 3>>
\* schedules for the code: the environment says for which team and block-rows;
\* written when a behaviour is complete
EnvW == JsonDeserialize(IOEnv.VF_TEAM).w
EnvRows == JsonDeserialize(IOEnv.VF_TEAM).rows
Emit == (Done => PrintT(<<"SCHEDULE", ToJson(moves)>>)) = TRUE
=============================================================================
