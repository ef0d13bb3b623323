----------------------------- MODULE MC_Lifecycle -----------------------------
(* Objects made, used, changed, cloned and dropped in every order: each is    *)
(* what its own history makes of it. The kinds here are the sawtooth, whose   *)
(* settings and state both show, and the delay; the tests are for any kind.   *)
EXTENDS Devices, Json
CONSTANTS MaxObjs, MaxSteps, Kinds, Emit
VARIABLES hist, born, steps, made
vars == <<objs, hist, born, steps, made>>
Settings2 == <<6000000, 9000000>>
Do(op) == hist' = Append(hist, op) /\ steps' = steps + 1
\* born: what each object was made with, and what was done to it since.
Note(i, what) == born' = [born EXCEPT ![i].since = Append(@, what)] /\ UNCHANGED made
Init == /\ \E k \in Kinds : LET p == IF k = "saw" THEN <<Settings2[1]>> ELSE <<0, 41666>> IN
                            /\ objs = (0 :> [k |-> k, p |-> p, d |-> "L", c |-> CHOOSE c \in Settings(k, p) : TRUE,
                                             s |-> InitialState(k, CHOOSE c \in Settings(k, p) : TRUE)])
                            /\ born = (0 :> [k |-> k, c |-> CHOOSE c \in Settings(k, p) : TRUE, since |-> <<>>])
        /\ hist = <<>> /\ steps = 0 /\ made = 1
In(o) == o.s.n + 1   \* what goes into a delay
Out(o) == IF o.k = "saw" THEN Wave("saw", o.s.ph) ELSE Held(o.s, o.s.n - o.c[1])
Next == steps < MaxSteps /\
  \/ \E i \in DOMAIN objs : Process(i, IF objs[i].k = "saw" THEN 0 ELSE In(objs[i]), Out(objs[i])) /\ Do(<<"use", i>>) /\ Note(i, 0)
  \/ \E i \in DOMAIN objs : /\ objs[i].k = "saw"
                            /\ LET f == CHOOSE g \in {Settings2[1], Settings2[2]} : g # objs[i].c[1] IN
                               Set(i, "f", <<f>>) /\ Do(<<"set", i>>) /\ Note(i, f)
  \/ \E i \in DOMAIN objs : /\ made < MaxObjs /\ Clone(i, made) /\ Do(<<"clone", i, made>>)
                            /\ born' = (made :> [k |-> objs[i].k, c |-> objs[i].c, since |-> <<>>]) @@ born /\ made' = made + 1
  \/ \E i \in DOMAIN objs : Drop(i) /\ Do(<<"drop", i>>) /\ born' = [j \in DOMAIN born \ {i} |-> born[j]] /\ UNCHANGED made
Spec == Init /\ [][Next]_vars

RECURSIVE Phase(_, _, _), Freq(_, _)
Freq(b, n) == IF n = 0 THEN b.c[1] ELSE IF b.since[n] = 0 THEN Freq(b, n - 1) ELSE b.since[n]
Phase(b, n, ph) == IF n = 0 THEN ph ELSE IF b.since[n] = 0 THEN Phase(b, n - 1, (ph + Freq(b, n - 1)) % Turn) ELSE Phase(b, n - 1, ph)
Independent == \A i \in DOMAIN objs : LET b == born[i] o == objs[i] IN
  IF o.k = "saw" THEN o.c[1] = Freq(b, Len(b.since)) /\ o.s.ph = Phase(b, Len(b.since), 0)
  ELSE /\ o.c = b.c /\ o.s.n = Len(b.since)
       /\ \A n \in 0 .. o.s.n - 1 : n >= o.s.n - o.c[1] => Held(o.s, n) = n + 1
Same == DOMAIN born = DOMAIN objs
View == <<objs, born, steps, made>>
\* One test for each way the objects relate.
TestView == <<[i \in DOMAIN objs |-> <<objs[i].c, Min2(Len(born[i].since), 4), IF born[i].since = <<>> THEN 1 ELSE born[i].since[Len(born[i].since)]>>], steps, made>>
EmitTest == Emit => PrintT("TEST " \o ToJson(hist'))
=============================================================================
