------------------------------ MODULE Reports ------------------------------
(***************************************************************************)
(* What the financial reports of a general ledger must show.               *)
(*                                                                         *)
(* A transaction is [name, desc, date, src, dt, cr, amount, closing]; date *)
(* is an instant.  types maps an account path to its type.                 *)
(***************************************************************************)
EXTENDS Calendar, FiniteSets, TLC, Big

(* a component comprises its own path and everything below it *)
InComponent(comp, src) == comp = "" \/ src = comp \/ SPrefix(SCat(comp, "/"), src)
InWindow(from, to, d) == AtOrBefore(from, d) /\ AtOrBefore(d, to)
Selected(ledger, from, to, comp) ==
  SelectSeq(ledger, LAMBDA t : InComponent(comp, t.src) /\ InWindow(from, to, t.date))

(* debits minus credits of an account *)
RECURSIVE NetDebitFrom(_, _, _, _)
NetDebitFrom(txs, acc, i, r) ==
  IF i > Len(txs) THEN r
  ELSE LET t == txs[i]
           r1 == IF t.dt = acc THEN DAdd(r, t.amount) ELSE r
           r2 == IF t.cr = acc THEN DSub(r1, t.amount) ELSE r1
       IN NetDebitFrom(txs, acc, i + 1, r2)
NetDebit(txs, acc) == NetDebitFrom(txs, acc, 1, "0")

Touched(txs) == {txs[i].dt : i \in 1..Len(txs)} \cup {txs[i].cr : i \in 1..Len(txs)}
OfType(types, txs, T) == {a \in Touched(txs) : types[a] \in T}

RECURSIVE SetSum(_, _)
SetSum(F, S) == IF S = {} THEN "0"
                ELSE LET x == CHOOSE y \in S : TRUE IN DAdd(F[x], SetSum(F, S \ {x}))
Total(F) == SetSum(F, DOMAIN F)

(* ------------------------- transaction list ---------------------------- *)
(* by date; transactions of one instant keep the ledger's order *)
RECURSIVE InsertByDate(_, _)
InsertByDate(s, t) ==
  IF s = <<>> THEN <<t>>
  ELSE IF Before(t.date, s[Len(s)].date) THEN Append(InsertByDate(SubSeq(s, 1, Len(s) - 1), t), s[Len(s)])
  ELSE Append(s, t)
RECURSIVE SortByDate(_, _, _)
SortByDate(s, i, r) == IF i > Len(s) THEN r ELSE SortByDate(s, i + 1, InsertByDate(r, s[i]))

TxList(ledger, from, to, comp) == SortByDate(Selected(ledger, from, to, comp), 1, <<>>)
TxTotal(txs) == DSum([i \in 1..Len(txs) |-> txs[i].amount])

(* --------------------------- balance sheet ----------------------------- *)
UpTo(ledger, to) == SelectSeq(ledger, LAMBDA t : AtOrBefore(t.date, to))
DebitSide(types, txs, T) == [a \in OfType(types, txs, T) |-> NetDebit(txs, a)]
CreditSide(types, txs, T) == [a \in OfType(types, txs, T) |-> DNeg(NetDebit(txs, a))]
Assets(types, ledger, to) == DebitSide(types, UpTo(ledger, to), {"asset"})
Liabilities(types, ledger, to) == CreditSide(types, UpTo(ledger, to), {"liability"})
Equity(types, ledger, to) == CreditSide(types, UpTo(ledger, to), {"equity"})

(* -------------------------- income statement --------------------------- *)
IncomeTxs(ledger, from, to, comp) ==
  SelectSeq(Selected(ledger, from, to, comp), LAMBDA t : ~t.closing)
Revenue(types, txs) == CreditSide(types, txs, {"revenue"})
ExpenseAll(types, txs) == DebitSide(types, txs, {"expense"})
(* cos: what the account for the cost of sales is called *)
IsCos(cos, a) == a = cos \/ SPrefix(SCat(cos, "/"), a)
Restrict(F, Q(_)) == [a \in {x \in DOMAIN F : Q(x)} |-> F[a]]
CostOfSales(types, cos, txs) == Restrict(ExpenseAll(types, txs), LAMBDA a : IsCos(cos, a))
Expenses(types, cos, txs) == Restrict(ExpenseAll(types, txs), LAMBDA a : ~IsCos(cos, a))
GrossRevenue(types, cos, txs) == DSub(Total(Revenue(types, txs)), Total(CostOfSales(types, cos, txs)))
NetIncome(types, cos, txs) == DSub(GrossRevenue(types, cos, txs), Total(Expenses(types, cos, txs)))

(* ----------------------- chart of accounts report ---------------------- *)
(* An account is [name, number, type, desc, subs]; accounts are listed by  *)
(* number, an account's sub accounts directly below it.                    *)
RECURSIVE InsertByNumber(_, _)
InsertByNumber(s, a) ==
  IF s = <<>> THEN <<a>>
  ELSE IF SLt(a.number, s[Len(s)].number) THEN Append(InsertByNumber(SubSeq(s, 1, Len(s) - 1), a), s[Len(s)])
  ELSE Append(s, a)
RECURSIVE SortByNumber(_, _, _)
SortByNumber(s, i, r) == IF i > Len(s) THEN r ELSE SortByNumber(s, i + 1, InsertByNumber(r, s[i]))

RECURSIVE ChartRows(_, _, _)
ChartRows(accs, i, prefix) ==
  LET s == SortByNumber(accs, 1, <<>>) IN
  IF i > Len(s) THEN <<>>
  ELSE <<<<s[i].type, SCat(prefix, s[i].number), s[i].name, s[i].desc>>>>
       \o ChartRows(s[i].subs, 1, SCat(s[i].number, "/"))
       \o ChartRows(accs, i + 1, prefix)
(* income statement accounts come before balance sheet accounts *)
ChartReport(accs) ==
  ChartRows(SelectSeq(accs, LAMBDA a : a.type \in {"revenue", "expense"}), 1, "")
  \o ChartRows(SelectSeq(accs, LAMBDA a : a.type \notin {"revenue", "expense"}), 1, "")
=============================================================================
