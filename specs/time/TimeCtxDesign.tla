--------------------------- MODULE TimeCtxDesign ----------------------------
(***************************************************************************)
(* The context as the C code keeps it: two "known" flags and slots for     *)
(* date, hour and offset which a failing parse may leave half written.     *)
(* Checked against the abstract protocol (adate, ahour): every answer and  *)
(* the local time read agree.  Texts are symbolic: a value 1..V or a       *)
(* malformed text that gets the parser to write 0..k slots before failing. *)
(* Bug: "flagfirst" sets the flag before parsing, "clobber" parses before  *)
(* refusing a repeated part, "dateonly" set_time looks at one flag only,   *)
(* "early" reports success with one part.                                  *)
(***************************************************************************)
EXTENDS Naturals, TLC
CONSTANTS V, Depth, Bug
VARIABLES fd, fh, sd, sh, so, adate, ahour, ans, want, n
vars == <<fd, fh, sd, sh, so, adate, ahour, ans, want, n>>

None == 0
Init == fd = FALSE /\ fh = FALSE /\ sd = 0 /\ sh = 0 /\ so = 0 /\ adate = None /\ ahour = None
        /\ ans = "" /\ want = "" /\ n = 0
Ans(d, h) == IF d /\ h THEN "ok" ELSE IF Bug = "early" /\ (d \/ h) THEN "ok" ELSE "progress"
AAns(d, h) == IF d # None /\ h # None THEN "ok" ELSE "progress"

\* part: slots a malformed text writes before its error is found
SetDate(v, part) ==
  /\ want' = (IF adate # None THEN "exists" ELSE IF v = 0 THEN "invalid" ELSE AAns(v, ahour))
  /\ adate' = (IF adate = None /\ v # 0 THEN v ELSE adate) /\ ahour' = ahour
  /\ IF fd /\ Bug # "clobber" THEN ans' = "exists" /\ UNCHANGED <<fd, sd>>
     ELSE IF v = 0 THEN /\ ans' = (IF fd THEN "exists" ELSE "invalid")
                        /\ sd' = (IF part > 0 THEN V + 1 ELSE sd)
                        /\ fd' = (fd \/ Bug = "flagfirst")
     ELSE /\ sd' = v /\ fd' = TRUE /\ ans' = (IF fd THEN "exists" ELSE Ans(TRUE, fh))
  /\ UNCHANGED <<fh, sh, so>>
SetHour(v, part) ==
  /\ want' = (IF ahour # None THEN "exists" ELSE IF v = 0 THEN "invalid" ELSE AAns(adate, v))
  /\ ahour' = (IF ahour = None /\ v # 0 THEN v ELSE ahour) /\ adate' = adate
  /\ IF fh THEN ans' = "exists" /\ UNCHANGED <<fh, sh, so>>
     ELSE IF v = 0 THEN /\ ans' = "invalid" /\ fh' = fh
                        /\ sh' = (IF part > 0 THEN V + 1 ELSE sh)
                        /\ so' = (IF part > 1 THEN V + 1 ELSE so)
     ELSE sh' = v /\ so' = v /\ fh' = TRUE /\ ans' = Ans(fd, TRUE)
  /\ UNCHANGED <<fd, sd>>
SetTime(v, part) ==
  /\ want' = (IF adate # None \/ ahour # None THEN "exists" ELSE IF v = 0 THEN "invalid" ELSE "ok")
  /\ IF adate = None /\ ahour = None /\ v # 0 THEN adate' = v /\ ahour' = v ELSE UNCHANGED <<adate, ahour>>
  /\ IF (IF Bug = "dateonly" THEN fd ELSE fd \/ fh) THEN ans' = "exists" /\ UNCHANGED <<fd, fh, sd, sh, so>>
     ELSE IF v = 0 THEN /\ ans' = "invalid" /\ UNCHANGED <<fd, fh>>
                        /\ sd' = (IF part > 0 THEN V + 1 ELSE sd)
                        /\ sh' = (IF part > 1 THEN V + 1 ELSE sh)
                        /\ so' = (IF part > 2 THEN V + 1 ELSE so)
     ELSE sd' = v /\ sh' = v /\ so' = v /\ fd' = TRUE /\ fh' = TRUE /\ ans' = "ok"
Reset == fd' = FALSE /\ fh' = FALSE /\ sd' = 0 /\ sh' = 0 /\ so' = 0 /\ adate' = None /\ ahour' = None
         /\ ans' = "ok" /\ want' = "ok"
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E v \in 0..V, p \in 0..3 : SetDate(v, p) \/ SetHour(v, p) \/ SetTime(v, p)
           \/ Reset
Spec == Init /\ [][Next]_vars
Answers == ans = want
Local == IF adate # None /\ ahour # None THEN fd /\ fh /\ sd = adate /\ sh = ahour /\ so = ahour
         ELSE ~(fd /\ fh)
=============================================================================
