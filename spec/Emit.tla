-------------------------------- MODULE Emit --------------------------------
(* Output of cases: one JSON document per line, in the file that the harness gives.              *)
EXTENDS TLC, CSV, Json, IOUtils

EmitCase(v) == CSVWrite("%1$s", <<ToJson(v)>>, IOEnv.VERIF_OUT)
=============================================================================
