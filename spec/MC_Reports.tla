----------------------------- MODULE MC_Reports -----------------------------
(* All ledgers of a few transactions over a small chart; every report on    *)
(* every window and component.  Ledgers are emitted for execution.          *)
EXTENDS Reports, Json
CONSTANTS MaxTx, Amounts, Days

Types == [x \in {"Bank/Default", "Sales/S", "Cost of Sales/C", "Expense/W", "Long Term Borrowing/L",
                 "Retained Income/Retained Earnings"} |->
            CASE x = "Bank/Default" -> "asset"
              [] x = "Sales/S" -> "revenue"
              [] x \in {"Cost of Sales/C", "Expense/W"} -> "expense"
              [] x = "Long Term Borrowing/L" -> "liability"
              [] OTHER -> "equity"]
Legs == {<<"Bank/Default", "Sales/S">>, <<"Cost of Sales/C", "Bank/Default">>, <<"Expense/W", "Sales/S">>,
         <<"Bank/Default", "Long Term Borrowing/L">>, <<"Sales/S", "Retained Income/Retained Earnings">>,
         <<"Expense/W", "Cost of Sales/C">>}
Srcs == {"M/E/C", "M/E/C/a", "M/E/C2/a"}
Comps == {"", "M/E", "M/E/C", "M/E/C2", "M/E/C/a"}
At(d) == <<736000 + d, 0, 0>>

VARIABLE ledger
vars == ledger
Init == ledger = <<>>
Post(l, s, d, a, c) ==
  /\ Len(ledger) < MaxTx
  /\ ledger' = Append(ledger, [name |-> "a", desc |-> "", date |-> At(d), src |-> s, dt |-> l[1], cr |-> l[2],
                               amount |-> a, closing |-> c])
Next == \E l \in Legs, s \in Srcs, d \in Days, a \in Amounts, c \in {FALSE, TRUE} :
          /\ c => (s = "M/E/C" /\ l[2] = "Retained Income/Retained Earnings")
          /\ Post(l, s, d, a, c)
Spec == Init /\ [][Next]_vars
Emit == Len(ledger') = MaxTx => PrintT(<<"@@", ToJson(<<ledger'>>)>>)

D0 == At(-100)  D9 == At(100)
(* assets equal what is owed and owned plus the income not yet closed *)
Unclosed(txs) == DSub(DNeg(Total(DebitSide(Types, txs, {"revenue"}))), Total(DebitSide(Types, txs, {"expense"})))
SheetBalances == \A d \in Days :
  DEq(Total(Assets(Types, ledger, At(d))),
      DAdd(DAdd(Total(Liabilities(Types, ledger, At(d))), Total(Equity(Types, ledger, At(d)))),
           Unclosed(UpTo(ledger, At(d)))))
(* an account balance is the sum of its balances over a split of the time  *)
Net(from, to, c) == NetIncome(Types, "Cost of Sales", IncomeTxs(ledger, from, to, c))
IncomeSplits == \A d \in Days :
  DEq(Net(D0, D9, ""), DAdd(Net(D0, At(d), ""), Net(<<At(d)[1], 0, 1>>, D9, "")))
(* the components partition the whole *)
ComponentsAdd == DEq(Net(D0, D9, "M/E"), DAdd(Net(D0, D9, "M/E/C"), Net(D0, D9, "M/E/C2")))
ComponentsNest == \A i \in 1..Len(ledger) : \A c \in Comps :
  InComponent(c, ledger[i].src) => InComponent("M/E", ledger[i].src)
SiblingsApart == \A i \in 1..Len(ledger) : ~(InComponent("M/E/C", ledger[i].src) /\ InComponent("M/E/C2", ledger[i].src))
(* the list is a sorted permutation of the selection *)
ListSorted == \A c \in Comps : LET s == TxList(ledger, D0, D9, c) IN
  /\ \A i \in 1..(Len(s) - 1) : AtOrBefore(s[i].date, s[i + 1].date)
  /\ Len(s) = Len(Selected(ledger, D0, D9, c))
  /\ DEq(TxTotal(s), TxTotal(Selected(ledger, D0, D9, c)))
  /\ \A i \in 1..Len(s) : \E j \in 1..Len(ledger) : ledger[j] = s[i]
=============================================================================
