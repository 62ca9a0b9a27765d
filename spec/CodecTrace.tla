------------------------------ MODULE CodecTrace -----------------------------
(* Records: kind "unpack": packed text given, value (or error) observed;
   kind "pack": value given (with `extra' surplus digits), packed text (or
   error) observed.  Several observations of one session share a record.   *)
EXTENDS Codec, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l, done
vars == <<t, l, done>>
Init == t \in 1..Len(Traces) /\ l = 0 /\ done = FALSE
Check(o) ==
  LET fmt == o.fmt IN
  IF o.kind = "unpack" THEN
    IF Bad(fmt, o.packed) THEN (IF o.err = "" THEN "accepted malformed coordinate" ELSE "")
    ELSE IF o.err # "" THEN "rejected " \o o.err
    ELSE IF Canon(o.value) # Unpack(fmt, o.packed) THEN "unpacked value" ELSE ""
  ELSE LET r == Round(o.value[2], o.extra) IN
    IF Overflow(fmt, r) THEN (IF o.err = "" THEN "accepted value out of range" ELSE "")
    ELSE IF o.err # "" THEN "rejected " \o o.err
    ELSE IF Bad(fmt, o.packed) THEN "packed text malformed"
    ELSE IF Unpack(fmt, o.packed) # Canon(<<o.value[1], Fit(fmt, r)>>) THEN "packed value"
    ELSE IF o.packed[2] # Pack(fmt, Canon(<<o.value[1], Fit(fmt, r)>>))[2] THEN "zeros not skipped"
    ELSE ""
Next == /\ ~done /\ l < Len(Traces[t].obs)
        /\ l' = l + 1 /\ t' = t
        /\ LET r == Traces[t]
               bad == Check(r.obs[l'])
           IN /\ done' = (bad # "" \/ l' = Len(r.obs))
              /\ IF bad # "" THEN PrintT(<<"VERDICT", r.id, "REJECT", bad, ToString(r.obs[l'])>>)
                 ELSE IF done' THEN PrintT(<<"VERDICT", r.id, "ACCEPT">>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
