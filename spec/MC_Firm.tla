------------------------------ MODULE MC_Firm ------------------------------
(* Exhaustive execution of a family of small firms.  Each firm is also     *)
(* emitted as a configuration that the driver builds and runs for real.    *)
EXTENDS Firm, Json

CONSTANTS Durs, Ns, Intervals, LoanDurs

S0 == <<2016, 1, 31, 0, 0>>
Types == [x \in {"Bank/Default", "Sales/S", "Cost of Sales/C", "Expense/W", "Other Income/O",
                 "Long Term Borrowing/L", Usual.gp, Usual.is, Usual.re} |->
            CASE x = "Bank/Default" -> "asset"
              [] x \in {"Sales/S", "Other Income/O", Usual.gp, Usual.is} -> "revenue"
              [] x \in {"Cost of Sales/C", "Expense/W"} -> "expense"
              [] x = "Long Term Borrowing/L" -> "liability"
              [] x = Usual.re -> "equity"]
(* windows, as offsets from the clock's start; <<>> is open *)
Civ(t) == LET c == Civil(t[1]) IN <<c[1], c[2], c[3], t[2], t[3]>>
Off(dur, k) == PeriodStart(Instant(S0), dur, k)
Starts(dur) == {<<>>, S0, Civ(Off(dur, 2)), Civ(AddSeconds(Off(dur, 1), 1)),
                Civ(Off(dur, 12)), Civ(AddSeconds(Off(dur, 12), 1)), Civ(Off(dur, 40))}
Ends(dur) == {<<>>, Civ(Off(dur, 1)), Civ(AddSeconds(Off(dur, 4), -1)), Civ(Off(dur, 12))}

Basic(lbl, dt, cr, amt, s, e, k) ==
  [kind |-> "basic", label |-> lbl, path |-> SCat("E/C/", lbl), dt |-> dt, cr |-> cr,
   bank |-> "", loan |-> "", int |-> "", amount |-> amt, rate |-> "0", duration |-> 0,
   start |-> s, end |-> e, interval |-> k]
Loan(lbl, amt, r, d, s, k) ==
  [kind |-> "loan", label |-> lbl, path |-> SCat("E/C/", lbl), dt |-> "", cr |-> "",
   bank |-> "Bank/Default", loan |-> "Long Term Borrowing/L", int |-> "Expense/W",
   amount |-> amt, rate |-> r, duration |-> d, start |-> s, end |-> <<>>, interval |-> k]

Firms ==
  {[start |-> S0, dur |-> d, n |-> n, types |-> Types, roles |-> Usual, ents |-> <<[path |-> "E", acts |-> <<x>> \o y]>>] :
     <<d, n, x, y>> \in
       UNION {{<<d, n, Basic("a", "Bank/Default", "Sales/S", "100", s, e, k), <<>>>> :
                 n \in Ns, s \in Starts(d), e \in Ends(d), k \in Intervals} : d \in Durs}
       \cup
       UNION {{<<d, n, Loan("l", "1200", r, q, s, k),
                 <<Basic("b", "Cost of Sales/C", "Bank/Default", "40.5", <<>>, <<>>, 2)>> >> :
                 n \in Ns, s \in {S0, Civ(Off(d, 2))}, q \in LoanDurs, k \in {1, 2}, r \in {"0", "0.12"}} : d \in Durs}
       \cup
       {<<d, n, Basic("s", "Bank/Default", "Sales/S", a1, <<>>, <<>>, 1),
          <<Basic("c", "Cost of Sales/C", x2, "60", <<>>, <<>>, 1),
            Basic("w", "Expense/W", "Bank/Default", a3, S0, <<>>, 3),
            Basic("r", "Other Income/O", "Bank/Default", "5.25", <<>>, <<>>, 5)>> >> :
          d \in Durs, n \in Ns, a1 \in {"0", "10", "100"}, a3 \in {"20", "90"},
          x2 \in {"Bank/Default", "Sales/S", "Other Income/O"}}}

VARIABLES cfg, i, loans, ledger, yr, closings
vars == <<cfg, i, loans, ledger, yr, closings>>

Ent == cfg.ents[1]
Init == /\ \E c \in Firms : cfg = Prepare(c)
        /\ i = 0 /\ ledger = <<>> /\ closings = <<>>
        /\ loans = [k \in 1..Len(cfg.ents[1].acts) |-> NewLoan]
        /\ yr = NewYear(cfg)

Year == SelectSeq(ledger', LAMBDA t : InYear(yr, t))
SetToSeqOf(S) == LET RECURSIVE F(_)
                     F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o F(T \ {x})
                 IN F(S)
RunPeriod ==
  /\ i < cfg.n
  /\ ledger' = ledger \o EntTxs(cfg, Ent, loans, i)
  /\ loans' = EntStep(cfg, Ent, loans, i)
  /\ IF Closes(cfg, yr, i)
     THEN /\ closings' = Append(closings, [date |-> YearEndDate(yr), at |-> i,
                                           txs |-> Year, entries |-> ClosingEntries(cfg, Year)])
          /\ yr' = NextYear(cfg, yr)
     ELSE UNCHANGED <<closings, yr>>
  /\ i' = i + 1 /\ UNCHANGED cfg
Next == RunPeriod
Spec == Init /\ [][Next]_vars
Emit == i' = cfg.n => PrintT(<<"@@", ToJson(<<cfg'>>)>>)

(* --- properties -------------------------------------------------------- *)
Done == i = cfg.n
NeverOutsideWindow == Done =>
  \A k \in 1..Len(ledger), j \in 1..Len(Ent.acts) :
    LET t == ledger[k] a == Ent.acts[j] IN
    t.source = a.path =>
      /\ a.start # <<>> => AtOrBefore(Instant(a.start), t.date)
      /\ ~Open(a) => AtOrBefore(t.date, ActEnd(a))
OncePerInterval == Done =>
  LET at == [m \in 0..(cfg.n - 1) |-> CfgAt(cfg, m)] IN
  \A j \in 1..Len(Ent.acts) : LET a == Ent.acts[j] IN
    a.kind = "basic" =>
    LET mine == SelectSeq(ledger, LAMBDA t : t.source = a.path)
        ds == {mine[k].date : k \in 1..Len(mine)}
        ms == {m \in 0..(cfg.n - 1) : at[m] \in ds}
    IN /\ Cardinality(ms) = Len(mine)
       /\ \A p, q \in ms : p < q => q - p >= a.interval
(* what is owed equals what the ledger says is owed, and is never negative *)
LoanBalance == (Done \/ cfg.n < 4) =>
  \A j \in 1..Len(Ent.acts) : LET a == Ent.acts[j] IN
    a.kind = "loan" =>
      /\ DClose(loans[j].left, NetCredit(ledger, a.loan), "1e-30", a.amount)
      /\ (cfg.dur = "month" => DLe("-1e-20", loans[j].left) /\ DLe(loans[j].left, a.amount))
(* after `duration` instalments the loan is repaid *)
LoanRepaid ==
  \A j \in 1..Len(Ent.acts) : LET a == Ent.acts[j] IN
    (a.kind = "loan" /\ Cardinality({k \in 1..Len(ledger) : ledger[k].desc = "Pay principle"}) = a.duration)
       => DClose(loans[j].left, 0, "1e-40", a.amount)
(* each elapsed year is closed exactly once, in order, one second before its end *)
ClosedOnce == Done =>
  /\ \A k \in 1..Len(closings) : closings[k].date = AddSeconds(AddYears(Instant(cfg.start), k), -1)
  /\ i > 0 => Len(closings) = Cardinality({y \in 1..50 : AtOrBefore(AddYears(Instant(cfg.start), y), CfgAt(cfg, i - 1))})
(* closing leaves every income account, gross profit and income summary at *)
(* zero and moves the net income to retained earnings                      *)
AsTxs(es) == SetToSeqOf(es)
ClosingClears == Done =>
  \A k \in 1..Len(closings) : LET c == closings[k] all == c.txs \o AsTxs(c.entries) IN
    /\ \A a \in Touched(all) : (a # RE(cfg) /\ cfg.types[a] \in {"revenue", "expense"}) => DIsZero(NetCredit(all, a))
    /\ DEq(NetCredit(all, RE(cfg)), NetIncome(cfg, c.txs))
(* no transaction is closed twice *)
YearsDisjoint == Done => \A k \in 1..(Len(closings) - 1) :
   \A x \in 1..Len(closings[k].txs), y \in 1..Len(closings[k + 1].txs) :
      Before(closings[k].txs[x].date, closings[k + 1].txs[y].date)
=============================================================================
