------------------------------ MODULE Command ------------------------------
(***************************************************************************)
(* A command line tool as a machine over a file system.                    *)
(*    parse -> (rejected | compute) -> (refused | write) -> done           *)
(* The function behind the command sees exactly the option values; the     *)
(* output file receives exactly its result, in the mitgrid layout; a       *)
(* command that does not get to "done" has changed no file.                *)
(***************************************************************************)
EXTENDS MitFile
Required(tool) ==
   CASE tool = "mkgrid"    -> {"lon1","lat1","lon2","lat2","lon_subscale","lat_subscale","outfile"}
     [] tool = "regrid"    -> {"ni","nj","lon1","lat1","lon2","lat2","lon_subscale","lat_subscale","outfile"}
     [] tool \in {"addfringe","stitch"} -> {"tilea","nia","nja","tileb","nib","njb","outfile"}
     [] tool = "getobcs"   -> {"parent_mitgridfile","ni_parent","nj_parent","regional_mitgridfile","ni_regional","nj_regional","parent_resultsdir"}
Ints == {"ni","nj","nia","nja","nib","njb","lon_subscale","lat_subscale","ni_parent","nj_parent","ni_regional","nj_regional"}
Floats == {"lon1","lat1","lon2","lat2"}
Optional(tool) == CASE tool = "regrid" -> {"mitgridfile","xg_file","yg_file"}
                    [] tool = "getobcs" -> {"OB_Jnorth","OB_Jsouth","OB_Ieast","OB_Iwest","resultsdir"}
                    [] OTHER -> {}
Flags(tool) == IF tool = "mkgrid" THEN {"verbose"} ELSE {"strict","verbose"}
\* a line is a set of <<option, form of its value>>; forms: "int", "real", "word", "none" (value
\* missing), "ints", "flag", "two" (given a second, stray value)
FormOK(opt,form) == CASE opt \in Ints -> form = "int"
                      [] opt \in Floats -> form \in {"int","real"}
                      [] opt \in {"OB_Jnorth","OB_Jsouth","OB_Ieast","OB_Iwest"} -> form \in {"int","ints"}
                      [] opt \in {"strict","verbose"} -> form = "flag"
                      [] OTHER -> form \in {"word","int","real"}
Parses(tool,line) == /\ \A r \in Required(tool) : \E o \in line : o[1] = r
                     /\ \A o \in line : /\ o[1] \in Required(tool) \cup Optional(tool) \cup Flags(tool)
                                        /\ FormOK(o[1],o[2])
=============================================================================
