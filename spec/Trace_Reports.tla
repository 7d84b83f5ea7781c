---------------------------- MODULE Trace_Reports ----------------------------
(* Reports rendered by the code judged against Reports.                     *)
EXTENDS Reports, TraceKit

TInit == [types |-> <<>>, cos |-> "", raw |-> <<>>, led |-> <<>>, slack |-> "0"]
(* a day without a time: as a beginning its first moment, as an end its last *)
From(b) == Instant(IF Len(b) = 3 THEN b \o <<0, 0>> ELSE b)
To(b) == Instant(IF Len(b) = 3 THEN b \o <<86399, 999999>> ELSE b)
Tx(t) == [t EXCEPT !.date = From(@)]
TStep(s, e) ==
  IF e.op = "ledger"
  THEN [types |-> e.types, cos |-> e.cos, raw |-> e.txs, led |-> [i \in 1..Len(e.txs) |-> Tx(e.txs[i])],
        slack |-> DMul("1e-13", DSum([i \in 1..Len(e.txs) |-> DAbs(e.txs[i].amount)]))]
  ELSE s

(* an amount rounded to two decimals *)
Cents(shown, v) == /\ DIsNum(shown) /\ DLe(DAbs(DSub(shown, v)), DAdd("0.00500001", DMul("1e-12", DAbs(v))))
(* a sum or balance, whose rounding errors are those of all that is in it *)
CentsW(shown, v, slack) == /\ DIsNum(shown) /\ DLe(DAbs(DSub(shown, v)), DAdd("0.00500001", slack))
(* the 1-based row at which column c first reads x, from row i on; 0 if none *)
RECURSIVE Find(_, _, _, _)
Find(rows, c, x, i) == IF i > Len(rows) THEN 0 ELSE IF rows[i][c] = x THEN i ELSE Find(rows, c, x, i + 1)

(* a listing of accounts with amounts shows exactly the function F *)
Lists(rows, i, j, cn, ca, F, w) ==
  /\ j - i + 1 = Cardinality(DOMAIN F)
  /\ {rows[k][cn] : k \in i..j} = DOMAIN F
  /\ \A k \in i..j : CentsW(rows[k][ca], F[rows[k][cn]], w)

(* --- transaction list -------------------------------------------------- *)
TxRow(t, r) ==
  /\ r[1] = t.text /\ r[2] = t.src
  /\ r[3] = (IF SSuffix(t.name, t.src) THEN "" ELSE t.name)
  /\ r[4] = t.dt /\ r[5] = t.cr /\ r[7] = t.desc
  /\ Cents(r[6], t.amount)
TxClauses(s, e, rows) ==
  LET exp == TxList(s.led, From(e.start), To(e.end), e.comp)
      n == Len(rows)
  IN <<Ck("B08.selection", n = Len(exp) + 2, <<"rows", n, "expected transactions", Len(exp)>>)>>
     \o If(n = Len(exp) + 2,
           <<Ck("B08.rows", \A i \in 1..Len(exp) : TxRow(exp[i], rows[i + 1]), <<rows, "expected", exp>>),
             Ck("B12.digits", \A i \in 1..Len(exp) : Cents(rows[i + 1][6], exp[i].amount), <<rows, "expected", exp>>),
             Ck("B08.total", rows[n][3] = "Total" /\ CentsW(rows[n][6], TxTotal(exp), s.slack), <<rows[n], TxTotal(exp)>>)>>)

(* --- balance sheet ----------------------------------------------------- *)
SheetClauses(s, e, rows) ==
  LET to == To(e.end)
      as == Assets(s.types, s.led, to)  li == Liabilities(s.types, s.led, to)  eq == Equity(s.types, s.led, to)
      n == Len(rows)
      a2 == Find(rows, 1, "", 2)
      aEnd == IF a2 = 0 THEN n - 2 ELSE a2 - 1
      tl == Find(rows, 3, "Total liabilities", 1)
      te == Find(rows, 3, "Total owners' equities", 1)
      ok == tl > 0 /\ te > tl /\ n > te
  IN <<Ck("B09.layout", ok, rows)>>
     \o If(ok,
       <<Ck("B09.assets", Lists(rows, 2, aEnd, 1, 2, as, s.slack), <<rows, "expected", as>>),
         Ck("B09.liabilities", Lists(rows, 4, tl - 1, 3, 4, li, s.slack), <<rows, "expected", li>>),
         Ck("B09.equity", Lists(rows, tl + 4, te - 1, 3, 4, eq, s.slack), <<rows, "expected", eq>>),
         Ck("B09.totals", /\ CentsW(rows[tl][5], Total(li), s.slack) /\ CentsW(rows[te][5], Total(eq), s.slack)
                          /\ rows[n][1] = "Total" /\ CentsW(rows[n][2], Total(as), s.slack)
                          /\ CentsW(rows[n][5], DAdd(Total(li), Total(eq)), s.slack),
            <<rows, "expected", Total(as), Total(li), Total(eq)>>)>>)

(* --- income statement -------------------------------------------------- *)
StatementClauses(s, e, rows) ==
  LET txs == IncomeTxs(s.led, From(e.start), To(e.end), e.comp)
      rv == Revenue(s.types, txs)  cs == CostOfSales(s.types, s.cos, txs)  ex == Expenses(s.types, s.cos, txs)
      n == Len(rows)
      rEnd == Find(rows, 1, "", 2)
      c0 == IF rEnd = 0 THEN 0 ELSE Find(rows, 1, "-------------", rEnd)
      cEnd == IF c0 = 0 THEN 0 ELSE Find(rows, 1, "", c0)
      g == Find(rows, 1, "Gross Revenues (including interest income)", 1)
      x0 == IF g = 0 THEN 0 ELSE Find(rows, 1, "--------", g)
      xEnd == IF x0 = 0 THEN 0 ELSE Find(rows, 1, "", x0)
      tt == Find(rows, 1, "Total Expenses", 1)
      net == NetIncome(s.types, s.cos, txs)
      ok == rEnd > 0 /\ c0 > 0 /\ cEnd > 0 /\ g > 0 /\ xEnd > 0 /\ tt > 0 /\ rows[n][1] = "Net Income"
      Debits(i, j) == \A k \in i..j : rows[k][3] = ""
      Credits(i, j) == \A k \in i..j : rows[k][2] = ""
      shown == rows[n][3]
      inner == SChars(shown)
      negShown == Len(inner) > 2 /\ inner[1] = "(" /\ inner[Len(inner)] = ")"
  IN <<Ck("B10.layout", ok, rows)>>
     \o If(ok,
       <<Ck("B10.revenue", Lists(rows, 4, rEnd - 1, 1, 3, rv, s.slack) /\ Credits(4, rEnd - 1), <<rows, "expected", rv>>),
         Ck("B10.cost_of_sales", Lists(rows, c0 + 1, cEnd - 1, 1, 2, cs, s.slack) /\ Debits(c0 + 1, cEnd - 1), <<rows, "expected", cs>>),
         Ck("B10.gross", CentsW(rows[g][3], GrossRevenue(s.types, s.cos, txs), s.slack), <<rows[g], "expected", GrossRevenue(s.types, s.cos, txs)>>),
         Ck("B10.expenses", Lists(rows, x0 + 1, xEnd - 1, 1, 2, ex, s.slack) /\ Debits(x0 + 1, xEnd - 1), <<rows, "expected", ex>>),
         Ck("B10.total_expenses", CentsW(rows[tt][2], Total(ex), s.slack), <<rows[tt], "expected", Total(ex)>>),
         Ck("B10.net_income",
            IF negShown THEN DLe(net, DAdd("1e-6", s.slack)) /\ CentsW(SCat("-", SSub(shown, 2, Len(inner) - 1)), net, s.slack)
                        ELSE DLe(DSub("-1e-6", s.slack), net) /\ CentsW(shown, net, s.slack),
            <<shown, "expected", net>>)>>)

(* --- all renderings show the same table -------------------------------- *)
(* leading, trailing and repeated blanks of a cell are not significant     *)
Cell(x) == STrim(x)
SameTable(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : /\ Len(a[i]) = Len(b[i])
                          /\ \A j \in 1..Len(a[i]) : Cell(a[i][j]) = Cell(b[i][j])
RECURSIVE FormClauses(_, _, _)
FormClauses(fs, i, rows) ==
  IF i > Len(fs) THEN <<>>
  ELSE <<Ck("B12.same_table", SameTable(fs[i].rows, rows), <<fs[i].form, fs[i].rows, "csv file", rows>>)>>
       \o FormClauses(fs, i + 1, rows)

(* --- chart of accounts ------------------------------------------------- *)
ChartClauses(e, rows) ==
  LET exp == ChartReport(e.accs)
      body == SubSeq(rows, 2, Len(rows))
  IN <<Ck("B11.complete", Len(body) = Len(exp), <<Len(body), "expected", Len(exp)>>),
       Ck("B11.rows", body = exp, <<rows, "expected", exp>>)>>

Named(kind) == CASE kind = "transaction_list" -> "B08" [] kind = "balance_sheet" -> "B09" [] OTHER -> "B10"

TJudge(s, e) ==
  CASE e.op = "after" ->
         <<Ck("B12.read_only", e.txs = s.raw /\ e.types = s.types, <<"ledger changed by reporting">>)>>
    [] e.op = "report" ->
         IF e.err # "" THEN <<Ck(SCat(Named(e.kind), ".produced"), FALSE, e.err), Ck("B12.produced", FALSE, e.err)>>
         ELSE LET rows == e.forms[1].rows IN
              (CASE e.kind = "transaction_list" -> TxClauses(s, e, rows)
                 [] e.kind = "balance_sheet" -> SheetClauses(s, e, rows)
                 [] OTHER -> StatementClauses(s, e, rows))
              \o FormClauses(e.forms, 2, rows)
    [] e.op = "chart" ->
         IF e.err # "" THEN <<Ck("B11.produced", FALSE, e.err), Ck("B12.produced", FALSE, e.err)>>
         ELSE ChartClauses(e, e.forms[1].rows) \o FormClauses(e.forms, 2, e.forms[1].rows)
    [] OTHER -> <<>>

VARIABLES l, st, bad, cnt
R == INSTANCE TraceRun WITH TInit0 <- TInit, TStep0 <- TStep, TJudge0 <- TJudge
Init == R!RInit
Next == R!RNext
=============================================================================
