-------------------------- MODULE SymbolRangesTrace --------------------------
EXTENDS SymbolRanges, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l
vars == <<S, l>>
Say(what, x) == PrintT("REJECT line " \o ToString(l) \o " " \o what \o ": " \o ToString(x)) /\ FALSE
Need(cond, what, x) == IF cond THEN TRUE ELSE Say(what, x)
Within(x, y) == x.s <= x.en /\ y.s <= x.s /\ x.en <= y.e
Frags(e, T) ==
  LET F == {e.frags[i] : i \in DOMAIN e.frags} IN
  /\ Need(\A f \in F : f.s < f.en /\ f.n \in DOMAIN T.syms /\ f.key = f.en, "every fragment is non-empty, of a known symbol, under its end", F)
  /\ Need(\A f \in F : Within(f, T.syms[f.n]) /\ f.size = Size(T.syms[f.n]) /\ f.dwarf = T.syms[f.n].dwarf, "every fragment is part of its symbol", F)
  /\ Need(\A i, j \in DOMAIN e.frags : i = j \/ e.frags[i].en <= e.frags[j].s \/ e.frags[j].en <= e.frags[i].s, "fragments are disjoint", F)
  /\ Need(\A a \in Addrs : IF T.owner[a] = 0 THEN \A f \in F : ~(f.s <= a /\ a < f.en)
                           ELSE \E f \in F : f.s <= a /\ a < f.en /\ f.n = T.owner[a], "symbol per address", T.owner)
Op(e) == /\ S' = Insert(S, e)
         /\ Frags(e, S')
         /\ Need(e.ret = Stored(S'), "something was stored", Stored(S'))
TraceInit == S = Init0 /\ l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN CASE e.e = "Reset" -> S' = Init0
          [] e.e = "Op" -> Op(e)
          [] e.e = "Exit" -> Need(e.st = "ok", "end of the program", "ok") /\ UNCHANGED S
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
