-------------------------------- MODULE Firm --------------------------------
(***************************************************************************)
(* Execution of a time based business model: in every period each entity   *)
(* lets its activities post transactions to its general ledger, and closes *)
(* the financial year when one has elapsed.                                *)
(*                                                                         *)
(* A configuration cfg is a record                                         *)
(*   start   civil start of the clock,  dur  period duration,              *)
(*   n       number of periods                                             *)
(*   types   function: account path -> account type                        *)
(*   ents    sequence of entities [path, acts]                             *)
(* An activity is a record with kind "basic" or "loan".                    *)
(***************************************************************************)
EXTENDS Calendar, Sequences, FiniteSets, TLC, Big

(* A configuration is prepared before it is executed: the beginnings of its *)
(* periods (at) and the window of every activity (from, to) are derived.    *)
CfgAt(cfg, i) == cfg.at[i + 1]

(* ---------------------------- schedule --------------------------------- *)
(* first period of the run that begins after instant x; n if there is none *)
RECURSIVE FirstAfterFrom(_, _, _, _)
FirstAfterFrom(at, n, x, i) ==
  IF i >= n THEN n ELSE IF Before(x, at[i + 1]) THEN i ELSE FirstAfterFrom(at, n, x, i + 1)
FirstAfter(cfg, x) == FirstAfterFrom(cfg.at, cfg.n, x, 0)

(* Periods beginning after the start take part; if there are none, the last *)
(* period still does when it begins exactly at the start.                   *)
StartIx(cfg, a) ==
  IF a.start = <<>> THEN 0
  ELSE LET x == Instant(a.start)  f == FirstAfter(cfg, x) IN
       IF f < cfg.n THEN f
       ELSE IF cfg.n = 0 THEN 0
       ELSE IF CfgAt(cfg, cfg.n - 1) = x THEN cfg.n - 1 ELSE cfg.n

ActEnd(a) == IF a.kind = "loan" THEN AddMonths(Instant(a.start), a.duration + 1)
             ELSE Instant(a.end)
Open(a) == a.kind = "basic" /\ a.end = <<>>

(* one past the last period that begins at or before the end *)
EndIx(cfg, a, s) ==
  IF Open(a) THEN s + cfg.n
  ELSE LET f == FirstAfter(cfg, ActEnd(a)) IN
       IF f < cfg.n THEN (IF f < s THEN s ELSE f) ELSE s + cfg.n

Prepare(cfg) ==
  LET at == [i \in 1..(cfg.n + 1) |-> PeriodStart(Instant(cfg.start), cfg.dur, i - 1)]
      c1 == [at |-> at] @@ cfg
      Act(a) == LET s == StartIx(c1, a) IN [from |-> s, to |-> EndIx(c1, a, s)] @@ a
      Ent(e) == [e EXCEPT !.acts = [k \in 1..Len(@) |-> Act(@[k])]]
  IN [c1 EXCEPT !.ents = [k \in 1..Len(@) |-> Ent(@[k])]]

Active(a) == DLt(0, a.amount) /\ (a.kind = "loan" => a.duration > 0)

(* An activity executes every interval-th period of the run, if that       *)
(* interval fits inside its window.                                        *)
Executes(cfg, a, i) ==
  /\ (i + 1) % a.interval = 0
  /\ i >= a.from
  /\ i + a.interval <= a.to
  /\ Active(a)

(* ------------------------------ loans ---------------------------------- *)
MonthlyRate(a) == DDiv(a.rate, 12)
(* the constant instalment that repays the loan in `duration` instalments *)
Instalment(a) ==
  IF DIsZero(a.rate) THEN DDiv(a.amount, a.duration)
  ELSE LET i == MonthlyRate(a) IN
       DDiv(DMul(a.amount, i), DSub(1, DDiv(1, DPow(DAdd(1, i), a.duration))))
NewLoan == [made |-> FALSE, left |-> "0"]
LoanInterest(a, ls) == DMul(ls.left, MonthlyRate(a))
LoanStep(a, ls) ==
  IF ~ls.made THEN [made |-> TRUE, left |-> a.amount]
  ELSE [ls EXCEPT !.left = DSub(DAdd(@, LoanInterest(a, ls)), Instalment(a))]

(* --------------------------- transactions ------------------------------ *)
Tx(label, desc, date, dt, cr, src, amt) ==
  [name |-> label, desc |-> desc, date |-> date, dt |-> dt, cr |-> cr,
   source |-> src, amount |-> amt, closing |-> FALSE]

ActTxs(cfg, a, ls, i) ==
  IF ~Executes(cfg, a, i) THEN <<>>
  ELSE LET d == CfgAt(cfg, i) IN
    IF a.kind = "basic"
    THEN <<Tx(a.label, "", d, a.dt, a.cr, a.path, a.amount)>>
    ELSE IF ~ls.made
    THEN <<Tx(a.label, "Make a loan", d, a.bank, a.loan, a.path, a.amount)>>
    ELSE <<Tx(a.label, "Consider interest", d, a.int, a.loan, a.path, LoanInterest(a, ls)),
           Tx(a.label, "Pay principle", d, a.loan, a.bank, a.path, Instalment(a))>>
ActStep(cfg, a, ls, i) ==
  IF a.kind = "loan" /\ Executes(cfg, a, i) THEN LoanStep(a, ls) ELSE ls

RECURSIVE Concat(_, _)
Concat(F, k) == IF k = 0 THEN <<>> ELSE Concat(F, k - 1) \o F[k]

(* what the activities of an entity post in period i *)
EntTxs(cfg, ent, loans, i) ==
  Concat([k \in 1..Len(ent.acts) |-> ActTxs(cfg, ent.acts[k], loans[k], i)], Len(ent.acts))
EntStep(cfg, ent, loans, i) ==
  [k \in 1..Len(ent.acts) |-> ActStep(cfg, ent.acts[k], loans[k], i)]

(* ------------------------- financial years ----------------------------- *)
(* The accounts that play a part of their own, by the paths they have now;  *)
(* a chart may give them other names.                                      *)
Usual == [sales |-> "Sales", cos |-> "Cost of Sales",
          gp |-> "Unallocated Income Statement/Gross Profit",
          is |-> "Unallocated Income Statement/Income Summary",
          re |-> "Retained Income/Retained Earnings"]
GP(cfg) == cfg.roles.gp
IS(cfg) == cfg.roles.is
RE(cfg) == cfg.roles.re

NewYear(cfg) == [from |-> Instant(cfg.start), to |-> AddYears(Instant(cfg.start), 1)]
(* the first period at or after the year's end closes it *)
Closes(cfg, yr, i) == AtOrBefore(yr.to, CfgAt(cfg, i))
NextYear(cfg, yr) ==
  LET nx == AddYears(yr.to, 1)  stop == CfgAt(cfg, cfg.n) IN
  [from |-> yr.to, to |-> IF Before(stop, nx) THEN stop ELSE nx]
YearEndDate(yr) == AddSeconds(yr.to, -1)
InYear(yr, tx) == AtOrBefore(yr.from, tx.date) /\ AtOrBefore(tx.date, YearEndDate(yr))

IsTrading(cfg, acc) == SPrefix(SCat(cfg.roles.sales, "/"), acc) \/ SPrefix(SCat(cfg.roles.cos, "/"), acc)

RECURSIVE SumLegs(_, _, _, _)
(* credits minus debits of account acc over the transactions txs *)
SumLegs(txs, acc, i, r) ==
  IF i > Len(txs) THEN r
  ELSE LET t == txs[i]
           c == IF t.cr = acc THEN t.amount ELSE "0"
           d == IF t.dt = acc THEN t.amount ELSE "0"
       IN SumLegs(txs, acc, i + 1, DSub(DAdd(r, c), d))
NetCredit(txs, acc) == SumLegs(txs, acc, 1, "0")

Touched(txs) == {txs[i].dt : i \in 1..Len(txs)} \cup {txs[i].cr : i \in 1..Len(txs)}

RECURSIVE SetSum(_, _)
SetSum(F, S) == IF S = {} THEN "0"
                ELSE LET x == CHOOSE y \in S : TRUE IN DAdd(F[x], SetSum(F, S \ {x}))

(* The accounts an income year consists of, and their net credits. *)
Trading(cfg, txs) == {a \in Touched(txs) : IsTrading(cfg, a)}
Income(cfg, txs) == {a \in Touched(txs) : ~IsTrading(cfg, a) /\ cfg.types[a] \in {"revenue", "expense"}}
GrossProfit(cfg, txs) == LET S == Trading(cfg, txs) IN SetSum([a \in S |-> NetCredit(txs, a)], S)
NetIncome(cfg, txs) ==
  LET S == Income(cfg, txs) IN
  DAdd(GrossProfit(cfg, txs), SetSum([a \in S |-> NetCredit(txs, a)], S))

(* A closing entry moves account `acc` with net credit v to account `to`:   *)
(* it debits the account that has a credit balance.                         *)
Entry(acc, v, to) ==
  IF DLt(0, v) THEN [dt |-> acc, cr |-> to, amount |-> v]
               ELSE [dt |-> to, cr |-> acc, amount |-> DAbs(v)]
Swap(e) == [dt |-> e.cr, cr |-> e.dt, amount |-> e.amount]
Neg(e) == [e EXCEPT !.amount = DNeg(@)]

NonZero(S, txs) == {a \in S : ~DIsZero(NetCredit(txs, a))}
TradingEntries(cfg, txs) == {Entry(a, NetCredit(txs, a), GP(cfg)) : a \in NonZero(Trading(cfg, txs), txs)}
GrossEntries(cfg, txs) == LET v == GrossProfit(cfg, txs) IN IF DIsZero(v) THEN {} ELSE {Entry(GP(cfg), v, IS(cfg))}
IncomeEntries(cfg, txs) == {Entry(a, NetCredit(txs, a), IS(cfg)) : a \in NonZero(Income(cfg, txs), txs)}
FinalEntries(cfg, txs) == LET v == NetIncome(cfg, txs) IN IF DIsZero(v) THEN {} ELSE {Entry(IS(cfg), v, RE(cfg))}
(* the closing of a year whose transactions are txs *)
ClosingEntries(cfg, txs) ==
  TradingEntries(cfg, txs) \cup GrossEntries(cfg, txs) \cup IncomeEntries(cfg, txs) \cup FinalEntries(cfg, txs)
=============================================================================
