-------------------------------- MODULE History -------------------------------
(* The library as its callers see it over time.  The caller owns wavelet objects and arrays  *)
(* ("slots"), whose content it changes between calls; it holds on to what calls returned,     *)
(* overwrites it, lets it go; some of its calls are in error; several threads call at once.   *)
(* None of that is state of the library: the value of a call is a function of what is called   *)
(* and of the content of its arguments when it is made, and a returned object keeps its value    *)
(* until its owner overwrites it.                                                             *)
EXTENDS Util
\* events: call  [e, t, f, w, d, k]   thread t calls f with wavelet slot w and data slot d; the result is number k
\*               (it has it at once unless the event is open: calls of several threads overlap)
\*         done  [e, k]               the open call that result k is of has ended
\*         turn  [e, w]               wavelet slot w gets its other content
\*         poke  [e, d]               data slot d gets its other content
\*         spoil [e, k]               the caller overwrites result k
\*         fail  [e, f, w, d]         a call in error
Start(W, D) == [w |-> [s \in W |-> 0], d |-> [s \in D |-> 0], held |-> << >>]
KeyOf(st, ev) == << ev.f, ev.w, st.w[ev.w], ev.d, st.d[ev.d] >>
After(st, ev) ==
  CASE ev.e = "call" -> [st EXCEPT !.held = (ev.k :> [key |-> KeyOf(st, ev), ok |-> ~Has(ev, "open")]) @@ @]
    [] ev.e = "done" -> [st EXCEPT !.held[ev.k].ok = TRUE]
    [] ev.e = "turn" -> [st EXCEPT !.w[ev.w] = 1 - @]
    [] ev.e = "poke" -> [st EXCEPT !.d[ev.d] = 1 - @]
    [] ev.e = "spoil" -> [st EXCEPT !.held = [k \in DOMAIN @ \ {ev.k} |-> @[k]]]
    [] ev.e = "fail" -> st
=============================================================================
