----------------------------- MODULE Trace_Firm -----------------------------
(***************************************************************************)
(* Recorded executions of real models judged against Firm.                 *)
(*                                                                         *)
(* Two deviations of the implementation from Firm are known (they are      *)
(* fixed by the project's own tests): trading accounts are closed in the   *)
(* wrong direction, and a loss reaches retained earnings with a negated    *)
(* amount.  They are named here, recognised exactly, and reported under    *)
(* the clauses KF1 and KF2; any other deviation is a violation.            *)
(***************************************************************************)
EXTENDS Firm, TraceKit

FreshLoans(cfg) == [k \in 1..Len(cfg.ents) |-> [j \in 1..Len(cfg.ents[k].acts) |-> NewLoan]]
Fresh(cfg) == [cfg |-> cfg, loans |-> FreshLoans(cfg),
               yr |-> [k \in 1..Len(cfg.ents) |-> NewYear(cfg)],
               ledger |-> [k \in 1..Len(cfg.ents) |-> <<>>],
               last |-> <<>>]
NoCfg == [start |-> <<2000, 1, 1, 0, 0>>, dur |-> "month", n |-> 0, at |-> <<>>, types |-> <<>>, roles |-> Usual, ents |-> <<>>]
TInit == Fresh(NoCfg)

ObsTx(x) == [x EXCEPT !.date = IF Len(x.date) = 5 THEN Instant(x.date) ELSE <<0, 0, 0>>]
ObsTxs(s) == [i \in 1..Len(s) |-> ObsTx(s[i])]

(* ---- one entity, one period ------------------------------------------- *)
SameTx(e, o, scale) ==
  /\ o.name = e.name /\ o.date = e.date /\ o.dt = e.dt /\ o.cr = e.cr
  /\ o.source = e.source /\ NearS(o.amount, e.amount, scale)
HasTx(s, e, scale) == \E i \in 1..Len(s) : s[i].desc = e.desc /\ SameTx(e, s[i], scale)
Of(s, a) == SelectSeq(s, LAMBDA t : t.source = a.path)

ActClauses(cfg, a, ls, i, obs) ==
  LET exp == ActTxs(cfg, a, ls, i)
      mine == Of(obs, a)
      id == IF a.kind = "basic" THEN "B04" ELSE "B05"
      head == IF Len(mine) > 0 THEN Head(mine) ELSE <<>>
  IN IF a.kind = "basic"
     THEN <<Ck("B04.schedule", Len(mine) = Len(exp), <<"period", i, a.path, "posted", Len(mine), "expected", Len(exp)>>)>>
          \o If(Len(exp) = 1 /\ Len(mine) = 1,
               <<Ck("B04.posting", SameTx(exp[1], mine[1], 0), <<"period", i, mine[1], "expected", exp[1]>>)>>)
     ELSE <<Ck("B05.schedule", Len(mine) = Len(exp), <<"period", i, a.path, "posted", Len(mine), "expected", Len(exp)>>)>>
          \o If(Len(exp) = 1, <<Ck("B05.advance", HasTx(mine, exp[1], a.amount), <<"period", i, mine, "expected", exp>>)>>)
          \o If(Len(exp) = 2,
               <<Ck("B05.interest", HasTx(mine, exp[1], a.amount), <<"period", i, mine, "expected", exp[1]>>),
                 Ck("B05.instalment", HasTx(mine, exp[2], a.amount), <<"period", i, mine, "expected", exp[2]>>)>>)

RECURSIVE ActsClauses(_, _, _, _, _, _)
ActsClauses(cfg, ent, loans, i, obs, k) ==
  IF k > Len(ent.acts) THEN <<>>
  ELSE ActClauses(cfg, ent.acts[k], loans[k], i, obs) \o ActsClauses(cfg, ent, loans, i, obs, k + 1)

(* a loan that ran to the end of its life owes nothing *)
Owed(ledger, a) == NetCredit(ledger, a.loan)

HasEntry(s, e, scale) == \E i \in 1..Len(s) : s[i].dt = e.dt /\ s[i].cr = e.cr /\ NearS(s[i].amount, e.amount, scale)

(* what floating point addition leaves of a zero is not a balance; entries   *)
(* for it may be there or not                                               *)
Dust(amt, scale) == ~DIsZero(amt) /\ DLe(DAbs(amt), DMul("1e-13", scale))
Solid(E, scale) == {e \in E : ~Dust(e.amount, scale)}

CloseClauses(cfg, ent, yr, i, ledger, obsAll) ==
  IF ~Closes(cfg, yr, i)
  THEN <<Ck("B06.not_before_year_end", obsAll = <<>>, <<"period", i, obsAll>>)>>
  ELSE
    LET txs == SelectSeq(ledger, LAMBDA t : ~t.closing /\ InYear(yr, t))
        scale == DSum([k \in 1..Len(txs) |-> DAbs(txs[k].amount)])
        tr == Solid(TradingEntries(cfg, txs), scale)  gr == Solid(GrossEntries(cfg, txs), scale)
        inc == Solid(IncomeEntries(cfg, txs), scale)  fin == Solid(FinalEntries(cfg, txs), scale)
        obsC == SelectSeq(obsAll, LAMBDA t : ~Dust(t.amount, scale))
        loss == DLt(NetIncome(cfg, txs), 0)
        straightT == {e \in tr : HasEntry(obsC, e, scale)}
        swappedT == {e \in tr : HasEntry(obsC, Swap(e), scale)}
        straightF == {e \in fin : HasEntry(obsC, e, scale)}
        negF == IF loss THEN {e \in fin : HasEntry(obsC, Neg(e), scale)} ELSE {}
        okT == straightT \cup swappedT = tr
        okF == straightF \cup negF = fin
    IN
    <<Ck("B06.entry_count", Len(obsC) = Cardinality(tr \cup gr \cup inc \cup fin),
         <<"period", i, "observed", obsC, "expected", tr, gr, inc, fin>>),
      Ck("B06.date", \A k \in 1..Len(obsC) : obsC[k].date = YearEndDate(yr), <<obsC, YearEndDate(yr)>>),
      Ck("B06.source", \A k \in 1..Len(obsC) : obsC[k].source = ent.path, obsC)>>
    \o If(tr # {}, <<Ck("B06.trading", okT, <<"observed", obsC, "expected", tr>>)>>)
    \o If(gr # {}, <<Ck("B06.gross_profit", \A e \in gr : HasEntry(obsC, e, scale), <<"observed", obsC, "expected", gr>>)>>)
    \o If(inc # {}, <<Ck("B06.income", \A e \in inc : HasEntry(obsC, e, scale), <<"observed", obsC, "expected", inc>>)>>)
    \o If(fin # {}, <<Ck("B06.retained", okF, <<"observed", obsC, "expected", fin>>)>>)
    \o If(tr # {} /\ okT, <<Ck("B06.KF1", straightT = tr, "trading accounts are closed by debiting Gross Profit for a credit balance")>>)
    \o If(fin # {} /\ okF, <<Ck("B06.KF2", straightF = fin, "a loss is posted to Retained Earnings as a negative amount")>>)

PeriodClauses(cfg, ent, loans, yr, i, ledger, obs, obsC) ==
  LET exp == EntTxs(cfg, ent, loans, i) IN
  ActsClauses(cfg, ent, loans, i, obs, 1)
  \o CloseClauses(cfg, ent, yr, i, ledger, obsC)
  \o <<Ck("B07.nothing_else", Len(obs) = Len(exp), <<"period", i, Len(obs), "expected", Len(exp)>>)>>

Regular(s) == SelectSeq(s, LAMBDA t : ~t.closing)
Closing(s) == SelectSeq(s, LAMBDA t : t.closing)

(* ---- a complete run --------------------------------------------------- *)
RECURSIVE RunClauses(_, _, _, _, _, _, _)
(* n counts the transactions accounted for *)
RunClauses(cfg, ent, loans, yr, i, led, n) ==
  IF i = cfg.n
  THEN <<Ck("B07.complete", n = Len(led), <<"ledger holds", Len(led), "accounted for", n>>)>>
  ELSE LET d == CfgAt(cfg, i)
           obs == SelectSeq(led, LAMBDA t : ~t.closing /\ t.date = d)
           cl == Closes(cfg, yr, i)
           ye == YearEndDate(yr)
           obsC == IF cl THEN SelectSeq(led, LAMBDA t : t.closing /\ t.date = ye) ELSE <<>>
       IN PeriodClauses(cfg, ent, loans, yr, i, led, obs, obsC)
          \o RunClauses(cfg, ent, EntStep(cfg, ent, loans, i),
                        IF cl THEN NextYear(cfg, yr) ELSE yr, i + 1, led, n + Len(obs) + Len(obsC))

RECURSIVE AllEnts(_, _)
AllEnts(F, k) == IF k = 0 THEN <<>> ELSE AllEnts(F, k - 1) \o F[k]

(* what a loan still owes after k instalments of a monthly model *)
RECURSIVE Payoff(_, _, _)
Payoff(a, ls, k) == IF k = 0 THEN ls ELSE Payoff(a, LoanStep(a, ls), k - 1)

LoanClauses(cfg, ent, led) ==
  LET RECURSIVE F(_)
      F(k) == IF k > Len(ent.acts) THEN <<>>
              ELSE LET a == ent.acts[k]
                       pays == Len(SelectSeq(led, LAMBDA t : t.source = a.path /\ t.dt = a.loan))
                       only == \A j \in 1..Len(ent.acts) : j # k => ent.acts[j].loan # a.loan /\ ent.acts[j].dt # a.loan /\ ent.acts[j].cr # a.loan
                   IN If(a.kind = "loan" /\ Active(a) /\ a.interval = 1 /\ pays = a.duration /\ only,
                         <<Ck("B05.repaid", NearS(Owed(led, a), "0", a.amount), <<"still owed", Owed(led, a)>>)>>)
                      \o F(k + 1)
  IN F(1)

TStep(s, e) ==
  CASE e.op = "config" -> [Fresh(Prepare(e.cfg)) EXCEPT !.last = s.last]
    (* the model was changed in the middle of a run that goes on *)
    [] e.op = "recast" -> [s EXCEPT !.cfg = Prepare(e.cfg)]
    [] e.op = "prepared" -> Fresh(s.cfg)
    [] e.op = "period" ->
         [s EXCEPT !.loans = [k \in 1..Len(s.cfg.ents) |-> EntStep(s.cfg, s.cfg.ents[k], @[k], e.i)],
                   !.yr = [k \in 1..Len(s.cfg.ents) |-> IF Closes(s.cfg, @[k], e.i) THEN NextYear(s.cfg, @[k]) ELSE @[k]],
                   !.ledger = [k \in 1..Len(s.cfg.ents) |-> @[k] \o ObsTxs(e.new[k])]]
    [] e.op = "post" -> [s EXCEPT !.ledger[e.ent] = Append(@, ObsTx(e.tx))]
    [] e.op \in {"run", "rerun"} -> [Fresh(s.cfg) EXCEPT !.last = e.ledgers]
    [] OTHER -> s

TJudge(s, e) ==
  LET cfg == s.cfg IN
  CASE e.op \in {"case", "config", "recast", "post"} -> <<>>
    [] e.op = "prepared" ->
         <<Ck("B07.clean_start", e.err = "" /\ e.ix = 0 /\ \A k \in 1..Len(e.sizes) : e.sizes[k] = 0, <<e.err, e.ix, e.sizes>>)>>
    [] e.op = "period" ->
         IF e.err # "" THEN <<Ck("B04.completes", FALSE, e.err), Ck("B05.completes", FALSE, e.err),
                              Ck("B06.completes", FALSE, e.err), Ck("B07.completes", FALSE, e.err)>>
         ELSE AllEnts([k \in 1..Len(cfg.ents) |->
                 LET new == ObsTxs(e.new[k]) IN
                 PeriodClauses(cfg, cfg.ents[k], s.loans[k], s.yr[k], e.i,
                               s.ledger[k] \o new, Regular(new), Closing(new))], Len(cfg.ents))
              \o <<Ck("B07.append_only", \A k \in 1..Len(cfg.ents) : e.kept[k], e.kept)>>
    [] e.op = "beyond" ->
         <<Ck("B07.beyond", e.err = "" /\ \A k \in 1..Len(e.same) : e.same[k], <<"posted after the end of the run", e>>)>>
    [] e.op \in {"run", "rerun"} ->
         IF e.err # "" THEN <<Ck("B04.completes", FALSE, e.err), Ck("B05.completes", FALSE, e.err),
                              Ck("B06.completes", FALSE, e.err), Ck("B07.completes", FALSE, e.err)>>
         ELSE AllEnts([k \in 1..Len(cfg.ents) |->
                 LET led == ObsTxs(e.ledgers[k]) IN
                 RunClauses(cfg, cfg.ents[k], FreshLoans(cfg)[k], NewYear(cfg), 0, led, 0)
                 \o LoanClauses(cfg, cfg.ents[k], led)], Len(cfg.ents))
              \o <<Ck("B07.clock", e.ix = cfg.n, e.ix)>>
              \o If(e.op = "rerun" /\ s.last # <<>>, <<Ck("B07.rerun", e.ledgers = s.last, "the ledger of the second run differs from the first")>>)
              \o <<Ck("B07.completes", TRUE, "")>>

VARIABLES l, st, bad, cnt
R == INSTANCE TraceRun WITH TInit0 <- TInit, TStep0 <- TStep, TJudge0 <- TJudge
Init == R!RInit
Next == R!RNext
=============================================================================
