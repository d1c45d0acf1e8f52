--------------------------- MODULE ProgressTrace ---------------------------
(* The progress bar as a state machine: hand out an item, then, when asked for *)
(* the next, print a frame for the items done; end the line after the last.    *)
(* Events of a recorded run: "new" (n items, bar of a given size), "item",     *)
(* "frame" (what was printed), "close" (end of line).                          *)
EXTENDS Integers, Sequences, TLC, Vp
CONSTANTS Samples
VARIABLES t, done, shown, state, run
vars == <<t, done, shown, state, run>>
All == Samples
Ev == All[t]
Init == t = 0 /\ done = 0 /\ shown = 0 /\ state = "closed" /\ run = 0
Next == t < Len(All) /\ t' = t + 1 /\
   LET e == All[t + 1] IN
   CASE e.op = "new" -> done' = 0 /\ shown' = 0 /\ state' = "open" /\ run' = t + 1
     [] e.op = "item" -> done' = done + 1 /\ UNCHANGED <<shown, state, run>>
     [] e.op = "frame" -> shown' = shown + 1 /\ UNCHANGED <<done, state, run>>
     [] OTHER -> state' = (IF e.op = "close" THEN "closed" ELSE state) /\ UNCHANGED <<done, shown, run>>
Spec == Init /\ [][Next]_vars
N == All[run].n
Percent(x) == x.percent10 * N <= done * 1000 + N /\ x.percent10 * N >= done * 1000 - N          \* in tenths, within a tenth
Judged == t = 0 \/
   CASE Ev.op = "new" -> TRUE
     [] Ev.op = "item" -> Clause("items are handed out in order, each once, after the frame of the last", Ev.item = done /\ shown = done - 1 /\ done <= N, [run |-> All[run], event |-> Ev, done |-> done, shown |-> shown])
     [] Ev.op = "frame" -> Clause("a frame shows the items done", shown = done /\ Ev.at = done /\ Ev.of = N /\ Ev.full = (All[run].size * done) \div N /\ Ev.full + Ev.empty = All[run].size /\ Percent(Ev), [run |-> All[run], event |-> Ev, done |-> done])
     [] Ev.op = "close" -> Clause("the line ends after the last item", done = N /\ shown = N /\ Ev.prefix = All[run].prefix, [run |-> All[run], done |-> done, shown |-> shown])
     [] OTHER -> Clause("nothing else is printed", FALSE, [run |-> All[run], event |-> Ev])

(* Times of frames, in tenths of a second: the clock since the first item was  *)
(* asked for, what is left at the same pace, and the pace itself. Minutes are  *)
(* shown as soon as there are any.                                             *)
TimedInit == t = 0 /\ done = 0 /\ shown = 0 /\ state = "closed" /\ run = 0
TimedNext == t < Len(All) /\ t' = t + 1 /\ UNCHANGED <<done, shown, state, run>>
TimedSpec == TimedInit /\ [][TimedNext]_vars
Shown(form, mins, secs, num, den) ==      \* num / den tenths, within one of them
  /\ secs <= 600 /\ (form => mins > 0) /\ (~form => num <= 600 * den + den)
  /\ Abs((mins * 600 + secs) * den - num) <= den
Pace(x) ==
  IF x.clock = 0 THEN x.fast        \* too fast to tell
  ELSE IF x.fast THEN x.v = -1 \/ Abs(x.v * x.clock - 100 * x.done) <= x.clock
  ELSE Abs(x.v * x.done - x.clock) <= x.done
Timed == t = 0 \/
  /\ Clause("the time elapsed is shown", Shown(Ev.eform, Ev.e60, Ev.es, Ev.clock, 1), Ev)
  /\ Clause("the time left is shown", Shown(Ev.rform, Ev.r60, Ev.rs, Ev.clock * (Ev.n - Ev.done), Ev.done), Ev)
  /\ Clause("the pace is shown, per second when there is more than one", Pace(Ev) /\ (Ev.clock > 0 /\ Ev.done * 10 # Ev.clock => (Ev.fast <=> Ev.done * 10 > Ev.clock)), Ev)
=============================================================================
