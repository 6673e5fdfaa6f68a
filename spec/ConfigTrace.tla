---------------------------- MODULE ConfigTrace ----------------------------
(***************************************************************************)
(* Validates recorded constructions of real caches against ConfigSpec.     *)
(*  cfg   api (0 unsync, 1 sync), sh, est, cap: the request; ok: the shares *)
(*        are within zero to one; mis: a mandatory option is missing;      *)
(*        res: 0 built, 1 error, 2 rejected by a panic;                    *)
(*        n, sc, tc: number of shards, capacity of each and in total;      *)
(*        len, w: items and weight of the new cache                        *)
(*  fill  after far more distinct unit-weight keys than fit: weight w and  *)
(*        capacity tc                                                      *)
(***************************************************************************)
EXTENDS ConfigSpec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Trace)
VARIABLES i, bad
Init == i = 1 /\ bad = 0

Built(e) ==
  /\ e.len = 0 /\ e.w = << >>
  /\ IF e.api = 0 THEN e.tc = e.cap
     ELSE /\ e.n = Shards(e.sh, e.est)
          /\ e.tc = Mul(e.sc, e.n)
          /\ Lt(e.cap, Half) => Serves(e.cap, e.n, e.sc)
Allowed(e) ==
  IF e.o = "fill" THEN e.w = e.tc
  ELSE IF e.ok = 0 THEN e.res \in {1, 2}
  ELSE IF e.mis # 0 THEN e.res = 1
  ELSE e.res = 0 /\ Built(e)

Next == /\ i <= NT /\ i' = i + 1
        /\ IF Allowed(Trace[i]) THEN bad' = bad
           ELSE PrintT(<< "REJECT", i, {IOEnv.PROPS} >>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_<< i, bad >>
Done == i > NT => PrintT(<< "DONE", NT, bad >>)
=============================================================================
