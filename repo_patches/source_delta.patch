From 0381fe91d5bf34ff6d15280d965881c79482689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 01/59] fix: looking up a missing sub account returns None
 instead of raising IndexError

GeneralLedgerAccount.get_child_account and GeneralLedgerStructure.get_account
document None for an account that does not exist, and
validate_account_names relies on it to raise its ValueError.
---
 auxi/modelling/financial/des.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/financial/des.py b/auxi/modelling/financial/des.py
index e8b530e..3b8ec01 100644
--- a/auxi/modelling/financial/des.py
+++ b/auxi/modelling/financial/des.py
@@ -56,7 +56,11 @@ class GeneralLedgerAccount(NamedObject):
         super(GeneralLedgerAccount, self).__init__(name, description)
 
     def __getitem__(self, key):
-        return [a for a in self.accounts if a.name == key][0]
+        items = [a for a in self.accounts if a.name == key]
+        if len(items) == 0:
+            return None
+        else:
+            return items[0]
 
     def __missing__(self, key):
         return None
-- 
2.43.0


From 1baecb1690d948c0fc5c48d210704e00bbe0480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 02/59] fix: income statement sign of the first credit to an
 expense or debit to revenue

---
 auxi/modelling/financial/reporting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 73eb595..2e89759 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -276,14 +276,14 @@ class IncomeStatement(Report):
                         if t.cr_account in summedExpenses:
                             summedExpenses[t.cr_account] -= t.amount
                         else:
-                            summedExpenses[t.cr_account] = t.amount
+                            summedExpenses[t.cr_account] = -t.amount
                 if not t.is_closing_cr_account and \
                    not t.is_closing_dt_account and t.dt_account != "":
                     if dt_account_type == AccountType.revenue:
                         if t.dt_account in summedIncome:
                             summedIncome[t.dt_account] -= t.amount
                         else:
-                            summedIncome[t.dt_account] = t.amount
+                            summedIncome[t.dt_account] = -t.amount
                     elif dt_account_type == AccountType.expense:
                         if t.dt_account in summedExpenses:
                             summedExpenses[t.dt_account] += t.amount
-- 
2.43.0


From 73c80a9ef3b64862e6cf180f1b288e5b2db4f468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 03/59] fix: an activity whose window lies outside the run does
 not execute

An activity starting after the last period ran from the first period, and
one whose window was empty by exactly one period collided with the -1
'not set' value and ran to the end of the model.
---
 auxi/modelling/business/structure.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 01704da..daf0810 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -94,13 +94,21 @@ class Activity(NamedObject):
                 if clock.get_datetime_at_period_ix(i) > self.start_datetime:
                     self.start_period_ix = i
                     break
+            else:
+                # No period is later than the start: only the last period can
+                # still coincide with it.
+                self.start_period_ix = period_count
+                last_ix = max(period_count - 1, 0)
+                if clock.get_datetime_at_period_ix(last_ix) == \
+                        self.start_datetime:
+                    self.start_period_ix = last_ix
         if self.start_period_ix == -1:
             self.start_period_ix = 0
         if self.period_count == -1 and self.end_datetime != datetime.max:
             # Set the Start date
             for i in range(0, period_count):
                 if clock.get_datetime_at_period_ix(i) > self.end_datetime:
-                    self.period_count = i - self.start_period_ix
+                    self.period_count = max(i - self.start_period_ix, 0)
                     break
         if self.period_count != -1:
             self.end_period_ix = self.start_period_ix + self.period_count
-- 
2.43.0


From a0ccfbcfa568c9dc65ed29728177d711a19a2913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 04/59] fix: interest free loans (the default rate) no longer
 divide by zero

---
 auxi/modelling/business/basic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index 4b5cdb7..3c1cf08 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -193,8 +193,13 @@ class BasicLoanActivity(Activity):
 
     def _update_monthly_payment_(self):
         int_rate = self._monthly_interest_rate
-        val = (self.amount * int_rate)
-        val = val / (1 - (1 / pow((1 + int_rate), self.duration)))
+        if self.duration <= 0:
+            val = 0.0
+        elif int_rate == 0:
+            val = self.amount / self.duration
+        else:
+            val = (self.amount * int_rate)
+            val = val / (1 - (1 / pow((1 + int_rate), self.duration)))
         self._monthly_payment = val
 
     @property
-- 
2.43.0


From dd29d5fdf9f08cff7ed25492cfe6b070a3f1de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 05/59] fix: an entity created in a model gets its path from
 the model

The path only appeared after the model was renamed.
---
 auxi/modelling/business/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/modelling/business/models.py b/auxi/modelling/business/models.py
index 0dffa67..41450de 100644
--- a/auxi/modelling/business/models.py
+++ b/auxi/modelling/business/models.py
@@ -74,6 +74,7 @@ class TimeBasedModel(NamedObject):
         """
 
         new_entity = Entity(name, gl_structure, description=description)
+        new_entity.set_parent_path(self.name)
         self.entities.append(new_entity)
         return new_entity
 
-- 
2.43.0


From 31a24d7433cf78bd044b88320243f80dbf139e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 06/59] fix: year end closing accounts for both legs of every
 transaction

A debit to a revenue account raised KeyError, and a transaction between two
income statement accounts was only counted for one of them.
---
 auxi/modelling/business/structure.py | 34 +++++++++++++---------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index daf0810..08c7b25 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -426,39 +426,37 @@ class Entity(NamedObject):
                         gross_profit_write_off_accs[cr_acc] += tx.amount
                     else:
                         gross_profit_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc in sales_accs:
-                    if dt_acc in gross_profit_write_off_accs:
-                        gross_profit_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        gross_profit_write_off_accs[dt_acc] = -tx.amount
-
                 elif cr_acc in cost_of_sales_accs:
                     if cr_acc in gross_profit_write_off_accs:
                         gross_profit_write_off_accs[cr_acc] += tx.amount
                     else:
                         gross_profit_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc in cost_of_sales_accs:
-                    if dt_acc in gross_profit_write_off_accs:
-                        gross_profit_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        gross_profit_write_off_accs[dt_acc] = -tx.amount
-
                 elif cr_acc.account_type == AccountType.revenue:
                     if cr_acc in inc_summary_write_off_accs:
                         inc_summary_write_off_accs[cr_acc] += tx.amount
                     else:
                         inc_summary_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc.account_type == AccountType.revenue:
-                    if dt_acc.account_type == AccountType.revenue:
-                        inc_summary_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        inc_summary_write_off_accs[dt_acc] = -tx.amount
-
                 elif cr_acc.account_type == AccountType.expense:
                     if cr_acc in inc_summary_write_off_accs:
                         inc_summary_write_off_accs[cr_acc] -= tx.amount
                     else:
                         inc_summary_write_off_accs[cr_acc] = -tx.amount
+
+                if dt_acc in sales_accs:
+                    if dt_acc in gross_profit_write_off_accs:
+                        gross_profit_write_off_accs[dt_acc] -= tx.amount
+                    else:
+                        gross_profit_write_off_accs[dt_acc] = -tx.amount
+                elif dt_acc in cost_of_sales_accs:
+                    if dt_acc in gross_profit_write_off_accs:
+                        gross_profit_write_off_accs[dt_acc] -= tx.amount
+                    else:
+                        gross_profit_write_off_accs[dt_acc] = -tx.amount
+                elif dt_acc.account_type == AccountType.revenue:
+                    if dt_acc in inc_summary_write_off_accs:
+                        inc_summary_write_off_accs[dt_acc] -= tx.amount
+                    else:
+                        inc_summary_write_off_accs[dt_acc] = -tx.amount
                 elif dt_acc.account_type == AccountType.expense:
                     if dt_acc in inc_summary_write_off_accs:
                         inc_summary_write_off_accs[dt_acc] += tx.amount
-- 
2.43.0


From 60a341c7a6e4f2099cfeeed2fb13e5e8ceeb93ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 07/59] fix: filtering a report by component excludes siblings
 sharing a name prefix

The filter on component 'Ops' also reported the transactions of 'Ops2'.
---
 auxi/modelling/financial/reporting.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 2e89759..5031b65 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -42,6 +42,11 @@ class Report(ReportBase):
     def __init__(self, data_source, output_path=None):
         super(Report, self).__init__(data_source, output_path)
 
+    def _is_in_component_(self, source):
+        path = self.component_path
+        return path == "" or source == path or \
+            source.startswith(path.rstrip('/') + '/')
+
 
 class GeneralLedgerStructure(Report):
     """
@@ -103,7 +108,7 @@ class TransactionList(Report):
         amount_tot = 0
         tx_list = self.data_source.transactions
         for t in sorted(tx_list, key=lambda v: v.tx_date):
-            if not t.source.startswith(self.component_path):
+            if not self._is_in_component_(t.source):
                 continue
             if self.start_date <= t.tx_date <= self.end_date:
                 if t.source.endswith(t.name):
@@ -260,7 +265,7 @@ class IncomeStatement(Report):
         summedIncome = {}
         summedExpenses = {}
         for t in self.data_source.transactions:
-            if not t.source.startswith(self.component_path):
+            if not self._is_in_component_(t.source):
                 continue
             if self.start_date <= t.tx_date <= self.end_date:
                 cr_account_type = gls.get_account(t.cr_account).account_type
-- 
2.43.0


From 22aa0a7229cef8436e051589f2df900bd2b56e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 08/59] fix: general ledger structure report of accounts
 without a number

create_account's number is optional, but the report raised TypeError.
---
 auxi/modelling/financial/reporting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 5031b65..846019b 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -60,12 +60,13 @@ class GeneralLedgerStructure(Report):
         super(GeneralLedgerStructure, self).__init__(data_source, output_path)
 
     def _gl_accounts_to_table_(self, table, account, prefix=''):
+        number = account.number or ''
         table.append([account.account_type.name,
-                      prefix + account.number,
+                      prefix + number,
                       account.name, account.description])
-        for acc in sorted(account.accounts, key=lambda a: a.number):
+        for acc in sorted(account.accounts, key=lambda a: a.number or ''):
             self._gl_accounts_to_table_(
-                table, acc, account.number + '/')
+                table, acc, number + '/')
 
     def _generate_table_(self):
         table = [["Type", "Number", "Name", "Description"]]
-- 
2.43.0


From 0298fa36d2c61748c15cf62134a05d36de39a34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 09/59] fix: rendered reports show amounts in full instead of
 six significant digits

---
 auxi/core/reporting.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/auxi/core/reporting.py b/auxi/core/reporting.py
index 7378b15..b8fb2ba 100644
--- a/auxi/core/reporting.py
+++ b/auxi/core/reporting.py
@@ -63,7 +63,7 @@ class Report(Object):
 
         table = self._generate_table_()
         if format == ReportFormat.printout:
-            print(tabulate(table, headers="firstrow", tablefmt="simple"))
+            print(self._tabulate_(table, "simple"))
         elif format == ReportFormat.latex:
             self._render_latex_(table)
         elif format == ReportFormat.txt:
@@ -71,7 +71,7 @@ class Report(Object):
         elif format == ReportFormat.csv:
             self._render_csv_(table)
         elif format == ReportFormat.string:
-            return str(tabulate(table, headers="firstrow", tablefmt="simple"))
+            return str(self._tabulate_(table, "simple"))
         elif format == ReportFormat.matplotlib:
             self._render_matplotlib_()
         elif format == ReportFormat.png:
@@ -80,21 +80,25 @@ class Report(Object):
             else:
                 self._render_matplotlib_(True)
 
+    def _tabulate_(self, table, tablefmt):
+        # Cells are already formatted: without disable_numparse tabulate would
+        # show a column of amounts with only six significant digits.
+        return tabulate(table, headers="firstrow", tablefmt=tablefmt,
+                        disable_numparse=True)
+
     def _render_latex_(self, table):
         if self.output_path is not None:
             with open(self.output_path + '.tex', 'w') as f:
-                f.write(
-                    tabulate(table, headers="firstrow", tablefmt="latex"))
+                f.write(self._tabulate_(table, "latex"))
         else:
-            print(tabulate(table, headers="firstrow", tablefmt="latex"))
+            print(self._tabulate_(table, "latex"))
 
     def _render_txt_(self, table):
         if self.output_path is not None:
             with open(self.output_path + '.txt', 'w') as f:
-                f.write(
-                    tabulate(table, headers="firstrow", tablefmt="simple"))
+                f.write(self._tabulate_(table, "simple"))
         else:
-            print(tabulate(table, headers="firstrow", tablefmt="simple"))
+            print(self._tabulate_(table, "simple"))
 
     def _render_csv_(self, table):
         if self.output_path is not None:
-- 
2.43.0


From bb555dfa017066627ec76722b6b2e4dbc3fcfde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 10/59] fix: objects that reference an object more than once
 survive being written and read

---
 auxi/core/objects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/auxi/core/objects.py b/auxi/core/objects.py
index 655998c..f9b47f2 100644
--- a/auxi/core/objects.py
+++ b/auxi/core/objects.py
@@ -21,8 +21,9 @@ class Object(object):
 
     def __str__(self):
         o = json.loads(jsonpickle.encode(self))
-        result = json.dumps(o, sort_keys=True, indent=4,
-                            separators=(',', ': '))
+        # The order must be kept: jsonpickle's references to objects that occur
+        # more than once depend on it.
+        result = json.dumps(o, indent=4, separators=(',', ': '))
         return result
 
     def __hash__(self):
-- 
2.43.0


From ddb6c2d40fd74596739af16bf04e3a426c4e1396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 11/59] fix: materials, packages and compounds can be read back
 after being written

---
 auxi/core/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/core/objects.py b/auxi/core/objects.py
index f9b47f2..0f27430 100644
--- a/auxi/core/objects.py
+++ b/auxi/core/objects.py
@@ -37,7 +37,7 @@ class Object(object):
 
     def write(self, path):
         with open(path, 'w') as file:
-            file.write(str(self))
+            file.write(Object.__str__(self))
 
     @staticmethod
     def read(path):
-- 
2.43.0


From f77958e543c77597f44276c644e4abd2bef8afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 12/59] fix: adding and clearing chem packages of the same
 material

---
 auxi/modelling/process/materials/chem.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index a4a9d1f..09e32e5 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -277,7 +277,8 @@ class MaterialPackage(Object):
             if self.material == other.material:
                 result = MaterialPackage(
                     self.material,
-                    self.compound_masses + other.compound_masses)
+                    [s + o for s, o in zip(self.compound_masses,
+                                           other.compound_masses)])
                 return result
             else:  # Packages of different materials.
                 result = self.clone()
@@ -378,7 +379,7 @@ class MaterialPackage(Object):
         Set all the compound masses in the package to zero.
         """
 
-        self.compound_masses *= 0.0
+        self.compound_masses = [m * 0.0 for m in self.compound_masses]
 
     def get_assay(self):
         """
@@ -553,7 +554,9 @@ class MaterialPackage(Object):
 
             # Packages of the same material.
             if self.material == other.material:
-                self.compound_masses += other.compound_masses
+                self.compound_masses = [
+                    s + o for s, o in zip(self.compound_masses,
+                                          other.compound_masses)]
 
             # Packages of different materials.
             else:
-- 
2.43.0


From 903f01426a93a7be0a58639e1f0bebaaf8065eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 13/59] fix: a refused add_to leaves the package unchanged

---
 auxi/modelling/process/materials/chem.py | 3 ++-
 auxi/modelling/process/materials/psd.py  | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index 09e32e5..fe216d1 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -173,7 +173,7 @@ class Material(NamedObject):
         :returns: A floating point array.
         """
 
-        return [0] * self.compound_count
+        return [0.0] * self.compound_count
 
     def add_assay(self, name, assay):
         """
@@ -568,6 +568,7 @@ class MaterialPackage(Object):
                                         "'. The compound '" + compound +
                                         "' was not found in '" +
                                         self.material.name + "'.")
+                for compound in other.material.compounds:
                     self.add_to((compound, other.get_compound_mass(compound)))
 
         # Add the specified mass of the specified compound.
diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index 593fe22..4fde873 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -515,6 +515,7 @@ class MaterialPackage(Object):
                             self.material.name +
                             "'. The size class '" + size_class +
                             "' was not found in '" + self.material.name + "'.")
+                for size_class in other.material.size_classes:
                     self.add_to(
                         (size_class, other.get_size_class_mass(size_class)))
 
-- 
2.43.0


From 3b3dfb2d2a1b1c5349ad6ebec4a73b346bb7e9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 14/59] fix: report the missing size class when packages cannot
 be added

---
 auxi/modelling/process/materials/psd.py    | 4 ++--
 auxi/modelling/process/materials/slurry.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index 4fde873..cdc3e67 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -290,7 +290,7 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name +
-                            "'. The size class '" + size_class +
+                            "'. The size class '" + str(size_class) +
                             "' was not found in '" + self.material.name + "'.")
                     result = result + (
                         size_class,
@@ -513,7 +513,7 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name +
-                            "'. The size class '" + size_class +
+                            "'. The size class '" + str(size_class) +
                             "' was not found in '" + self.material.name + "'.")
                 for size_class in other.material.size_classes:
                     self.add_to(
diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index eb0a452..f8c3e2e 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -398,7 +398,7 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name + "'. The size class '" +
-                            size_class + "' was not found in '" +
+                            str(size_class) + "' was not found in '" +
                             self.material.name + "'.")
                     result = result + (
                         size_class, other.get_size_class_mass(size_class))
-- 
2.43.0


From f6fcdc5b4e39a3ec184fb3806233333c064f9c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 15/59] fix: only H2O is accepted as the water of a slurry

---
 auxi/modelling/process/materials/slurry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index f8c3e2e..23891b4 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -498,7 +498,7 @@ class MaterialPackage(Object):
             return False
         elif not len(value) == 2:
             return False
-        elif not type(value[0]) is str and not value[0] == "H2O":
+        elif not type(value[0]) is str or not value[0] == "H2O":
             return False
         elif not type(value[1]) is float and \
                 not type(value[1]) is numpy.float64 and \
-- 
2.43.0


From 96dfc43c93806a82c6ab85b7209e91c5ce453472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 16/59] fix: adding two slurries without solids keeps a defined
 solid density

---
 auxi/modelling/process/materials/slurry.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 23891b4..a5992e9 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -376,9 +376,11 @@ class MaterialPackage(Object):
         if type(other) is MaterialPackage:
             solid_mass = self.get_solid_mass()
             other_solid_mass = other.get_solid_mass()
-            solid_density = (solid_mass + other_solid_mass) / \
-                (solid_mass / self.solid_density +
-                    other_solid_mass / other.solid_density)
+            solid_density = self.solid_density
+            if solid_mass + other_solid_mass > 0.0:
+                solid_density = (solid_mass + other_solid_mass) / \
+                    (solid_mass / self.solid_density +
+                        other_solid_mass / other.solid_density)
             H2O_mass = self.H2O_mass + other.H2O_mass
             # Packages of the same material.
             if self.material == other.material:
-- 
2.43.0


From 25f5ff5f0e8bb087d2dfaeffde3cbe6885a78755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 17/59] fix: a refused slurry assay leaves the material
 unchanged

---
 auxi/modelling/process/materials/slurry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index a5992e9..cbff434 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -238,11 +238,9 @@ class Material(NamedObject):
 
         if not type(solid_density) is float:
             raise Exception("Invalid solid density. It must be a float.")
-        self.solid_densities[name] = solid_density
 
         if not type(H2O_fraction) is float:
             raise Exception("Invalid H2O fraction. It must be a float.")
-        self.H2O_fractions[name] = H2O_fraction
 
         if not type(assay) is numpy.ndarray:
             raise Exception("Invalid assay. It must be a numpy array.")
@@ -253,6 +251,8 @@ class Material(NamedObject):
         elif name in self.assays.keys():
             raise Exception(
                 "Invalid assay: An assay with that name already exists.")
+        self.solid_densities[name] = solid_density
+        self.H2O_fractions[name] = H2O_fraction
         self.assays[name] = assay
 
     def get_assay_total(self, name):
-- 
2.43.0


From 314522f8751a8e15da763f74cf68856767948fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 18/59] fix: extracting nothing from an empty package

---
 auxi/modelling/process/materials/chem.py   | 3 ++-
 auxi/modelling/process/materials/psd.py    | 3 ++-
 auxi/modelling/process/materials/slurry.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index fe216d1..3da8283 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -503,7 +503,8 @@ class MaterialPackage(Object):
                 raise Exception('Invalid extraction operation. Cannot extract'
                                 'a mass larger than the package\'s mass.')
 
-            fraction_to_subtract = other / self.get_mass()
+            mass = self.get_mass()
+            fraction_to_subtract = other / mass if mass != 0.0 else 0.0
             result = MaterialPackage(
                 self.material,
                 [m * fraction_to_subtract for m in self.compound_masses])
diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index cdc3e67..a28622f 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -458,7 +458,8 @@ class MaterialPackage(Object):
                 raise Exception(
                     "Invalid extraction operation. "
                     "Cannot extract a mass larger than the package's mass.")
-            fraction_to_subtract = other / self.get_mass()
+            mass = self.get_mass()
+            fraction_to_subtract = other / mass if mass != 0.0 else 0.0
             result = MaterialPackage(
                 self.material, self.size_class_masses * fraction_to_subtract)
             self.size_class_masses = self.size_class_masses * (
diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index cbff434..712abd6 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -641,7 +641,8 @@ class MaterialPackage(Object):
                 raise Exception(
                     "Invalid extraction operation. "
                     "Cannot extract a mass larger than the package's mass.")
-            fraction_to_subtract = other / self.get_mass()
+            mass = self.get_mass()
+            fraction_to_subtract = other / mass if mass != 0.0 else 0.0
             result = MaterialPackage(
                 self.material,
                 self.solid_density,
-- 
2.43.0


From c67d63fbd5a68b454e50fe60937a9ef82a82d410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 19/59] fix: a group multiplied by zero is counted zero times,
 not once

---
 auxi/tools/chemistry/stoichiometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/chemistry/stoichiometry.py b/auxi/tools/chemistry/stoichiometry.py
index 48b068e..123a8d9 100644
--- a/auxi/tools/chemistry/stoichiometry.py
+++ b/auxi/tools/chemistry/stoichiometry.py
@@ -137,13 +137,13 @@ class CompoundVisitor(parsimonious.NodeVisitor):
 
     def visit_dottedgroup(self, _, dottedgroup):
         (_, number, group) = dottedgroup
-        if not number:
+        if not isinstance(number, int):  # omitted
             number = 1
         return Group([group], number, dotted=True)
 
     def visit_subscriptedgroup(self, _, subscriptedgroup):
         (_, group, _, number) = subscriptedgroup
-        if not number:
+        if not isinstance(number, int):  # omitted
             number = 1
         return Group([group], number)
 
-- 
2.43.0


From 4513c1c058c95db43811e17f840720d32ad1a303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 20/59] fix: create a phase that has magnetic data

---
 auxi/tools/chemistry/thermochemistry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index 12e1cbb..a87ab50 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -166,15 +166,15 @@ class Phase(NamedObject):
         """[J/mol/K] The standard entropy of the phase at Tref."""
 
         if 'magnetic' in dictionary:
-            self.Tc_mag = ['magnetic']['Tc']
+            self.Tc_mag = dictionary['magnetic']['Tc']
             """The critical temperature, which is the Curie temperature for
             ferromagnetic materials or the Neel temperature for
             antiferromagnetic materials."""
 
-            self.beta0_mag = ['magnetic']['beta0']
+            self.beta0_mag = dictionary['magnetic']['beta0']
             """The average magnetic moment per atom."""
 
-            self.p_mag = ['magnetic']['p']
+            self.p_mag = dictionary['magnetic']['p']
             """This value can be thought of as the fraction of the magnetic
             enthalpy absorbed above the critical. It depends on structure."""
 
-- 
2.43.0


From 52a522cbe58a326dcd0777e9f92ae10805cc966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 21/59] fix: count the magnetic contribution once beyond the
 last Cp record

---
 auxi/tools/chemistry/thermochemistry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index a87ab50..9815a38 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -288,7 +288,7 @@ class Phase(NamedObject):
 
         # Extrapolate beyond the upper limit by using a constant heat capacity.
         Tmax = max([float(TT) for TT in self._Cp_records.keys()])
-        result += self.Cp(Tmax)*(T - Tmax)
+        result += self._Cp_records[str(Tmax)].Cp(Tmax)*(T - Tmax)
 
         return result + self.H_mag(T)
 
@@ -334,7 +334,7 @@ class Phase(NamedObject):
 
         # Extrapolate beyond the upper limit by using a constant heat capacity.
         Tmax = max([float(TT) for TT in self._Cp_records.keys()])
-        result += self.Cp(Tmax)*math.log(T / Tmax)
+        result += self._Cp_records[str(Tmax)].Cp(Tmax)*math.log(T / Tmax)
 
         return result + self.S_mag(T)
 
@@ -381,8 +381,8 @@ class Phase(NamedObject):
 
         # Extrapolate beyond the upper limit by using a constant heat capacity.
         Tmax = max([float(TT) for TT in self._Cp_records.keys()])
-        h = h + self.Cp(Tmax)*(T - Tmax)
-        s = s + self.Cp(Tmax)*math.log(T / Tmax)
+        h = h + self._Cp_records[str(Tmax)].Cp(Tmax)*(T - Tmax)
+        s = s + self._Cp_records[str(Tmax)].Cp(Tmax)*math.log(T / Tmax)
 
         return h - T * s + self.G_mag(T)
 
-- 
2.43.0


From 3a1e24a3465609848b75f1d6899a2bf6735914a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 22/59] fix: adding two empty packages or streams keeps a
 defined temperature

---
 auxi/modelling/process/materials/thermo.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index baf7e42..6ddbbc9 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -713,6 +713,10 @@ class MaterialPackage(Object):
         :returns: Temperature. [°C]
         """
 
+        # Without content the temperature does not follow from the enthalpy.
+        if not self.mass > 0.0:
+            return self._T
+
         # Create the initial guesses for temperature.
         x = list()
         x.append(self._T)
@@ -1432,6 +1436,10 @@ class MaterialStream(Object):
         :returns: Temperature. [°C]
         """
 
+        # Without content the temperature does not follow from the enthalpy.
+        if not self.mfr > 0.0:
+            return self._T
+
         # Create the initial guesses for temperature.
         x = list()
         x.append(self._T)
-- 
2.43.0


From 612066646a640c0a1c258ed0d881f554baed9552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:09 +0000
Subject: [PATCH 23/59] fix: the temperature of small packages and streams is
 solved as precisely as that of large ones

---
 auxi/modelling/process/materials/thermo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 6ddbbc9..baa31d9 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -731,7 +731,7 @@ class MaterialPackage(Object):
         for i in range(2, 50):
             x.append(x[i-1] - y[i-1]*((x[i-1] - x[i-2])/(y[i-1] - y[i-2])))
             y.append(self._calculate_H(x[i]) - H)
-            if abs(y[i-1]) < 1.0e-5:
+            if abs(y[i-1]) < 1.0e-5 * min(1.0, self.mass):
                 break
 
         return x[len(x) - 1]
@@ -1454,7 +1454,7 @@ class MaterialStream(Object):
         for i in range(2, 50):
             x.append(x[i-1] - y[i-1]*((x[i-1] - x[i-2])/(y[i-1] - y[i-2])))
             y.append(self._calculate_Hfr(x[i]) - Hfr)
-            if abs(y[i-1]) < 1.0e-5:
+            if abs(y[i-1]) < 1.0e-5 * min(1.0, self.mfr):
                 break
 
         return x[len(x) - 1]
-- 
2.43.0


From 97cc2a42c3fe491e1480ee425218376ade7bd197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:28 +0000
Subject: [PATCH 24/59] fix: clearing a stream clears its enthalpy flow rate

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index baa31d9..a8a49d2 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1611,7 +1611,7 @@ class MaterialStream(Object):
         self._compound_mfrs = self._compound_mfrs * 0.0
         self._P = 1.0
         self._T = 25.0
-        self._H = 0.0
+        self._Hfr = 0.0
 
     def get_assay(self):
         """
-- 
2.43.0


From f7ee66302ad50bb87cff9c9c16bf2da3cc147c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:48 +0000
Subject: [PATCH 25/59] fix: a cloned package or stream has custom properties
 of its own

---
 auxi/modelling/process/materials/thermo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index a8a49d2..2ed5bd3 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -854,6 +854,7 @@ class MaterialPackage(Object):
 
         result = copy.copy(self)
         result._compound_masses = copy.deepcopy(self._compound_masses)
+        result.custom_properties = copy.deepcopy(self.custom_properties)
         return result
 
     def clear(self):
@@ -1600,6 +1601,7 @@ class MaterialStream(Object):
 
         result = copy.copy(self)
         result._compound_mfrs = copy.deepcopy(self._compound_mfrs)
+        result.custom_properties = copy.deepcopy(self.custom_properties)
         return result
 
     def clear(self):
-- 
2.43.0


From 3d3d60713f8f202d5ff8dd71ddb3506cf202969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 26/59] fix: extracting a material keeps the pressure

---
 auxi/modelling/process/materials/thermo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 2ed5bd3..4196372 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1077,6 +1077,7 @@ class MaterialPackage(Object):
             result += (compound, mass)
             self.extract(compound)
         result.T = self.T
+        result.P = self.P
 
         return result
 
@@ -1851,6 +1852,7 @@ class MaterialStream(Object):
             result += (compound, mfr)
             self.extract(compound)
         result.T = self.T
+        result.P = self.P
 
         return result
 
-- 
2.43.0


From f2d49e3eb93356db046b5ca6226e2497f3f1b079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 27/59] fix: extracting nothing from an empty thermo package or
 stream

---
 auxi/modelling/process/materials/thermo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 4196372..c8b6302 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1027,7 +1027,7 @@ class MaterialPackage(Object):
         if mass > self.mass:
             raise Exception("Invalid extraction operation. \
                 Cannot extract a mass larger than the package's mass.")
-        fraction_to_subtract = mass / self.mass
+        fraction_to_subtract = mass / self.mass if mass != 0.0 else 0.0
         result = MaterialPackage(
             self.material, self._compound_masses *
             fraction_to_subtract, self._P, self._T)
@@ -1781,7 +1781,7 @@ class MaterialStream(Object):
             raise Exception("Invalid extraction operation. Cannot extract a "
                             "mass flow rate larger than the streams's mass "
                             "flow rate.")
-        fraction_to_subtract = mfr / self.mfr
+        fraction_to_subtract = mfr / self.mfr if mfr != 0.0 else 0.0
         result = MaterialStream(
             self.material, self._compound_mfrs *
             fraction_to_subtract, self._P, self._T)
-- 
2.43.0


From 3a0c09734624a335d682c5b8a2857c133390ccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 28/59] fix: a part of a coal stream is coal too

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index c8b6302..7a6d20e 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1784,7 +1784,7 @@ class MaterialStream(Object):
         fraction_to_subtract = mfr / self.mfr if mfr != 0.0 else 0.0
         result = MaterialStream(
             self.material, self._compound_mfrs *
-            fraction_to_subtract, self._P, self._T)
+            fraction_to_subtract, self._P, self._T, self.isCoal, self.HHV)
 
         self._compound_mfrs = self._compound_mfrs * \
             (1.0 - fraction_to_subtract)
-- 
2.43.0


From c067f5d5f51bed2557686b1ffdbcef415b5cf3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:05 +0000
Subject: [PATCH 29/59] fix: the element mass flow rates of a stream raised
 TypeError

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 7a6d20e..8136646 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1698,7 +1698,7 @@ class MaterialStream(Object):
         result = numpy.zeros(len(elements))
         for compound in self.material.compounds:
             result += self.get_compound_mfr(compound) *\
-                stoich.element_mass_fractions(compound, elements)
+                numpy.array(stoich.element_mass_fractions(compound, elements))
         return result
 
     def get_element_mfr_dictionary(self):
-- 
2.43.0


From d800fab68d58aa30ffe9378e274d08f310ff34cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 30/59] fix: the heating value of coal follows the compounds
 added to and extracted from it

---
 auxi/modelling/process/materials/thermo.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 8136646..04e0332 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1265,6 +1265,7 @@ class MaterialStream(Object):
             # Create the result stream.
             result = self * 1.0
             result._compound_mfrs[index] += mfr
+            result._update_HHV(compound, mfr)
             result.Hfr = self._Hfr + enthalpy
             result._P = self._P
             return result
@@ -1815,10 +1816,15 @@ class MaterialStream(Object):
         if self.isCoal:
             HHV = self.HHV * (self.mfr - mfr)  # MJ
 
-            dH = thermo.H(compound, 25, mfr)  # kWh
-            dH -= thermo.H('CO2[G]', 25, cc(mfr, compound, 'COs', 'C'))  # kWh
-            dH -= thermo.H('H2O[L]', 25, cc(mfr, compound, 'H2O', 'H'))  # kWh
-            dH -= thermo.H('SO2[G]', 25, cc(mfr, compound, 'SO2', 'S'))  # kWh
+            # Only the elements that make up the daf coal have a heating value.
+            formula = compound.split('[')[0]
+            dH = 0.0  # kWh
+            if any(stoich.element_mass_fraction(formula, element) == 1.0
+                   for element in ['C', 'H', 'O', 'N', 'S']):
+                dH += thermo.H(compound, 25, mfr)
+                dH -= thermo.H('CO2[G]', 25, cc(mfr, formula, 'CO2', 'C'))
+                dH -= thermo.H('H2O[L]', 25, cc(mfr, formula, 'H2O', 'H'))
+                dH -= thermo.H('SO2[G]', 25, cc(mfr, formula, 'SO2', 'S'))
             dH *= 3.6  # MJ
 
             HHV += dH  # MJ
-- 
2.43.0


From 2afab077ad91e3704937164a4d2b31701920fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 31/59] fix: the heating value of coal that specifies none is
 that of its elements

---
 auxi/modelling/process/materials/thermo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 04e0332..a85b654 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1368,7 +1368,9 @@ class MaterialStream(Object):
         if self.HHV is None:
             # If no HHV is specified, calculate it from the proximate assay
             # using C-H-O-N-S.
-            HHV = (Hout - Hin) / m_total  # kWh/kg daf
+            HHV = Hin / m_total - Hout  # kWh/kg daf
+            if m_total > 0.0:
+                self._HHV = HHV * m_total / self.mfr * 3.6  # MJ/kg coal
         else:
             # If an HHV is specified, convert it from MJ/kg coal to kWh/kg daf.
             HHV = self.HHV / 3.6  # kWh/kg coal
-- 
2.43.0


From 3eddc0821b0f86eb691be9e15c3017ba150e93cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:09 +0000
Subject: [PATCH 32/59] fix: packages and streams can be created from an assay
 added to a thermo material

---
 auxi/modelling/process/materials/thermo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index a85b654..413f79d 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -202,15 +202,14 @@ class Material(NamedObject):
             result += "-" * line_length + "\n"
             result += "Custom Properties:\n"
             result += "-" * line_length + "\n"
-            first_assay = list(sorted(self.assay_custom_properties.keys()))[0]
-            properties = list(sorted(
-                self.assay_custom_properties[first_assay].keys()))
+            properties = sorted(set(self.custom_properties))
             for prop in properties:
                 pad = ''
                 result += prop.ljust(20)
                 for assay_name in assay_names:
                     result += pad + "{:.8e}".format(
-                        self.assay_custom_properties[assay_name][prop]
+                        self.assay_custom_properties[assay_name].get(
+                            prop, float("nan"))
                         ).rjust(15)
                     pad = '  '
                 result += "\n"
@@ -306,6 +305,7 @@ class Material(NamedObject):
                             "exists.")
         self.raw_assays[name] = assay
         self.converted_assays[name] = assay
+        self.assay_custom_properties[name] = dict()
 
     def get_assay_total(self, name):
         """
-- 
2.43.0


From 59ff82e69ac694c9b13aa66c01d880f74ffc0083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:26 +0000
Subject: [PATCH 33/59] fix: psd, slurry and thermo materials keep their
 description

---
 auxi/modelling/process/materials/psd.py    | 2 +-
 auxi/modelling/process/materials/slurry.py | 2 +-
 auxi/modelling/process/materials/thermo.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index a28622f..9eb96a8 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -65,7 +65,7 @@ class Material(NamedObject):
 
     def __init__(self, name, file_path, description=None):
         # Initialise the material's properties.
-        self.name = name
+        super().__init__(name, description)
         self.size_classes = list()
 
         # Read the material's data from the file and prepare it for use.
diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 712abd6..5f7f2bd 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -74,7 +74,7 @@ class Material(NamedObject):
 
     def __init__(self, name, file_path, description=None):
         # Initialise the material's properties.
-        self.name = name
+        super().__init__(name, description)
         self.size_classes = list()
 
         # Read the material's data from the file and prepare it for use.
diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 413f79d..679cdf8 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -78,7 +78,7 @@ class Material(NamedObject):
 
     def __init__(self, name, file_path, description=None):
         # Initialise the material's properties.
-        self.name = name
+        super().__init__(name, description)
         """The material's name."""
 
         self.description = description
-- 
2.43.0


From a0915a51c0f94ec6a0f490f6ac98432c84904b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:42 +0000
Subject: [PATCH 34/59] fix: gas materials are named after the gas, not after a
 data file

---
 .../tools/materialphysicalproperties/gases.py | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/gases.py b/auxi/tools/materialphysicalproperties/gases.py
index 4844129..58dfc0a 100644
--- a/auxi/tools/materialphysicalproperties/gases.py
+++ b/auxi/tools/materialphysicalproperties/gases.py
@@ -112,8 +112,8 @@ def _create_air():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -150,8 +150,8 @@ def _create_argon():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -187,8 +187,8 @@ def _create_ammonia():
 
     model_type = "polynomialmodelt"
     for property in ["rho", "Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -224,8 +224,8 @@ def _create_carbon_dioxide():
 
     model_type = "polynomialmodelt"
     for property in ["rho", "Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -262,8 +262,8 @@ def _create_carbon_monoxide():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -300,8 +300,8 @@ def _create_nitrogen():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -338,8 +338,8 @@ def _create_oxygen():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -376,8 +376,8 @@ def _create_water_vapour():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        path = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(path))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
-- 
2.43.0


From 5ca1f36a3b1a9cb0da50a729f3cb9019be0ec35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:54 +0000
Subject: [PATCH 35/59] fix: the Riboud viscosity model leaves the caller's
 composition unchanged

---
 auxi/tools/materialphysicalproperties/slags.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/slags.py b/auxi/tools/materialphysicalproperties/slags.py
index 89c76a9..bd2039b 100644
--- a/auxi/tools/materialphysicalproperties/slags.py
+++ b/auxi/tools/materialphysicalproperties/slags.py
@@ -169,12 +169,13 @@ class RiboudViscosityTx(Model):
                          compounds_caf2 + compounds_na2o)
 
         # convert compounds with two cations to single cation equivalents
+        x = dict(x)
         if 'P2O5' in x:
-            x['PO2.5'] = 2.0 * x['P2O5']
+            x['PO2.5'] = x.get('PO2.5', 0.0) + 2.0 * x['P2O5']
         if 'Fe2O3' in x:
-            x['FeO1.5'] = 2.0 * x['Fe2O3']
+            x['FeO1.5'] = x.get('FeO1.5', 0.0) + 2.0 * x['Fe2O3']
         if 'B2O3' in x:
-            x['BO1.5'] = 2.0 * x['B2O3']
+            x['BO1.5'] = x.get('BO1.5', 0.0) + 2.0 * x['B2O3']
 
         # normalise mole fractions, use only compounds in compounds_all
         x_total = sum([x.get(c, 0.0) for c in compounds_all])
-- 
2.43.0


From ac756ff1085764279293647b91143969bf8a7694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:14 +0000
Subject: [PATCH 36/59] fix: gas mixture, slag and coal models validate the
 state they are given

---
 auxi/tools/materialphysicalproperties/coals.py |  4 ++++
 auxi/tools/materialphysicalproperties/gases.py |  6 ++++++
 auxi/tools/materialphysicalproperties/slags.py | 14 ++++++++++++--
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/coals.py b/auxi/tools/materialphysicalproperties/coals.py
index f482cca..ac320ac 100644
--- a/auxi/tools/materialphysicalproperties/coals.py
+++ b/auxi/tools/materialphysicalproperties/coals.py
@@ -109,6 +109,8 @@ class DafCpTy(DafThermoTy):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
+
         T = state['T']
         y_C = state['y_C']
         y_H = state['y_H']
@@ -158,6 +160,8 @@ class DafHTy(DafThermoTy):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
+
         T = state['T']
         y_C = state['y_C']
         y_H = state['y_H']
diff --git a/auxi/tools/materialphysicalproperties/gases.py b/auxi/tools/materialphysicalproperties/gases.py
index 58dfc0a..47624ca 100644
--- a/auxi/tools/materialphysicalproperties/gases.py
+++ b/auxi/tools/materialphysicalproperties/gases.py
@@ -444,6 +444,8 @@ class WilkeMuTx(Model):
 
             return result
 
+        super().calculate(**state)
+
         T = state['T']
         x = state['x']
 
@@ -532,6 +534,8 @@ class HerningZippererMuTx(Model):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
+
         T = state['T']
         x = state['x']
 
@@ -613,6 +617,8 @@ class IdealCpTx(Model):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
+
         T = state["T"]
         x = state["x"]
 
diff --git a/auxi/tools/materialphysicalproperties/slags.py b/auxi/tools/materialphysicalproperties/slags.py
index bd2039b..1a3af59 100644
--- a/auxi/tools/materialphysicalproperties/slags.py
+++ b/auxi/tools/materialphysicalproperties/slags.py
@@ -55,6 +55,10 @@ class UrbainViscosityTx(Model):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
+        return self._calculate_mu(**state)
+
+    def _calculate_mu(self, **state):
         T = state['T']
         x = state['x']
 
@@ -122,10 +126,11 @@ class UrbainViscosityTy(UrbainViscosityTx):
         that are used to describe the state of the material.
         """
 
+        Model.calculate(self, **state)
         T = state['T']
         y = state['y']
         x = amount_fractions(y)
-        return super().calculate(T=T, x=x)
+        return self._calculate_mu(T=T, x=x)
 
 
 class RiboudViscosityTx(Model):
@@ -156,6 +161,10 @@ class RiboudViscosityTx(Model):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
+        return self._calculate_mu(**state)
+
+    def _calculate_mu(self, **state):
         T = state['T']
         x = state['x']
 
@@ -225,10 +234,11 @@ class RiboudViscosityTy(RiboudViscosityTx):
         that are used to describe the state of the material.
         """
 
+        Model.calculate(self, **state)
         T = state['T']
         y = state['y']
         x = amount_fractions(y)
-        return super().calculate(T=T, x=x)
+        return self._calculate_mu(T=T, x=x)
 
 
 ds1 = DataSet(_path('data/dataset-slag-slagatlas1995.csv'))
-- 
2.43.0


From ee80d37e0e0d17f21f737b78ae39f23c7c560b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 37/59] fix: air can be a component of a gas mixture

---
 .../tools/materialphysicalproperties/gases.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/gases.py b/auxi/tools/materialphysicalproperties/gases.py
index 47624ca..8f9e10c 100644
--- a/auxi/tools/materialphysicalproperties/gases.py
+++ b/auxi/tools/materialphysicalproperties/gases.py
@@ -15,7 +15,7 @@ import webbrowser
 import matplotlib.pyplot as plt
 import numpy as np
 
-from auxi.tools.chemistry.stoichiometry import molar_mass as M
+from auxi.tools.chemistry.stoichiometry import molar_mass
 from auxi.tools.materialphysicalproperties.core import DataSet, Model
 from auxi.tools.materialphysicalproperties.polynomial import PolynomialModelT
 from auxi.tools.materialphysicalproperties.idealgas import \
@@ -34,6 +34,21 @@ __email__ = "christoff.kok@ex-mente.co.za"
 __status__ = "Planning"
 
 
+M_AIR = 28.9645
+"""[g/mol] molar mass of air"""
+
+
+def M(compound):
+    """
+    Calculate the molar mass of the specified compound or of air.
+
+    :param compound: formula of a compound, or "Air".
+
+    :return: [g/mol] molar mass.
+    """
+    return M_AIR if compound == "Air" else molar_mass(compound)
+
+
 def _path(relative_path):
     """
     Calculate the full path of the provided relative path.
@@ -89,7 +104,7 @@ def _create_air():
     """
     name = "Air"
     namel = name.lower()
-    mm = 28.9645  # g/mol
+    mm = M_AIR  # g/mol
 
     ds_dict = _create_ds_dict([
         "dataset-air-lienhard2015",
-- 
2.43.0


From 0b0c1e355490acf17768f1d76e6c0f1cbc2ce576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:46 +0000
Subject: [PATCH 38/59] fix: a material can be created without property models

---
 auxi/modelling/process/materials/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/auxi/modelling/process/materials/core.py b/auxi/modelling/process/materials/core.py
index 89970f6..6522733 100644
--- a/auxi/modelling/process/materials/core.py
+++ b/auxi/modelling/process/materials/core.py
@@ -35,6 +35,9 @@ class Material(NamedObject):
         self.mstate = state_of_matter
         """State of matter."""
 
+        if property_models is None:
+            property_models = {}
+
         if 'alpha' in property_models:
             self.alpha = property_models['alpha']
 
-- 
2.43.0


From f6b695ee17b19668172865ec1c9bfe246f9f6a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:03 +0000
Subject: [PATCH 39/59] fix: the Rayleigh number raised NameError

---
 auxi/tools/transportphenomena/dimensionlessquantities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/auxi/tools/transportphenomena/dimensionlessquantities.py b/auxi/tools/transportphenomena/dimensionlessquantities.py
index de85172..303b926 100644
--- a/auxi/tools/transportphenomena/dimensionlessquantities.py
+++ b/auxi/tools/transportphenomena/dimensionlessquantities.py
@@ -5,6 +5,9 @@ doing transport phenomena calculations.
 """
 
 
+from auxi.tools.physicalconstants import g as g_std
+
+
 # TODO: Add mathematical formula to each function. See Gr for example.
 # TODO: Test to make sure that math formulae appear correctly on readthedocs.
 # TODO: Test to make sure that math formulae appear correctly in LaTeX.
@@ -99,7 +102,7 @@ def Ra(L: float, Ts: float, Tf: float, alpha: float, beta: float, nu: float
         * bluff body: diameter
     """
 
-    return g * beta * (Ts - Tinf) * L**3.0 / (nu * alpha)
+    return g_std * beta * (Ts - Tf) * L**3.0 / (nu * alpha)
 
 
 def Nu(L: float, h: float, k: float) -> float:
-- 
2.43.0


From 3553c2e9fb983f8b9f34898115904f263f2554c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:19 +0000
Subject: [PATCH 40/59] fix: transposed digits in the Newtonian constant of
 gravitation

---
 auxi/tools/physicalconstants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/tools/physicalconstants.py b/auxi/tools/physicalconstants.py
index 9bb8f03..813ce21 100644
--- a/auxi/tools/physicalconstants.py
+++ b/auxi/tools/physicalconstants.py
@@ -20,7 +20,7 @@ __status__ = 'Planning'
 c = 299792458.0
 """[m·s-1] speed of light in vacuum, from nist2018-constants"""
 
-G = 6.67403E-11
+G = 6.67430E-11
 """[m3.kg-1.s-2] Newtonian constant of gravitation, from nist2018-constants"""
 
 h = 6.626070150E-34
-- 
2.43.0


From dfab871accb1e3123137889c4bff0e29cfdb85e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:58 +0000
Subject: [PATCH 41/59] fix: natural convection regions are limited by
 log10(Ra), not Ra

---
 .../transportphenomena/heattransfer/naturalconvection.py    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index ead2065..f4896fa 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -3,7 +3,7 @@ This module provides tools to calculate natural convection heat transfer
 coefficients.
 """
 
-from math import radians, cos
+from math import radians, cos, log10, inf
 from matplotlib import pyplot as plt
 from matplotlib.patches import Rectangle
 
@@ -320,8 +320,10 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
         Pr = dq.Pr(nu, alpha)
         Ra = Gr * Pr
 
+        # the regions are defined in terms of log10(Ra)
+        log_Ra = log10(Ra) if Ra > 0.0 else -inf
         eq = [self.equation_dict[r]
-              for r in self.regions if r.contains_point(theta, Ra)][0]
+              for r in self.regions if r.contains_point(theta, log_Ra)][0]
 
         return eq(self, Ra, Pr)
 
-- 
2.43.0


From 04c789aa5c862edec61287487df353af08b316ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 42/59] fix: natural convection from a surface colder than the
 fluid gave a complex number

---
 auxi/tools/transportphenomena/heattransfer/naturalconvection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index f4896fa..f148f91 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -318,7 +318,7 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
 
         Gr = dq.Gr(L, Ts, Tf, beta, nu, g)
         Pr = dq.Pr(nu, alpha)
-        Ra = Gr * Pr
+        Ra = abs(Gr * Pr)
 
         # the regions are defined in terms of log10(Ra)
         log_Ra = log10(Ra) if Ra > 0.0 else -inf
-- 
2.43.0


From 29f8fa3b4d7e8b25fc1ad0ea09191f1a233b565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:31 +0000
Subject: [PATCH 43/59] fix: no natural convection region covered 88 degrees
 and low Ra

---
 auxi/tools/transportphenomena/heattransfer/naturalconvection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index f148f91..4c0909b 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -244,7 +244,7 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
         region = self.Region("r17", 0, False, 88, False, 11, False, None,
                              False)
         eq_dict[region] = ifs._Nu_x__8_27
-        region = self.Region("r18", 88, False, 90, True, None, False, 6, False)
+        region = self.Region("r18", 88, True, 90, True, None, False, 6, False)
         eq_dict[region] = ifs._Nu_x__8_38
         region = self.Region("r19", 88, True, 90, True, 6, True, 9, True,
                              "In_Eq_Region")
-- 
2.43.0


From 5d71aaf08b38b19fefdf2471cc032633fbb7f61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:48 +0000
Subject: [PATCH 44/59] fix: a variable group could not be created

---
 auxi/modelling/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/core.py b/auxi/modelling/core.py
index fe11d9a..ba6dbf4 100644
--- a/auxi/modelling/core.py
+++ b/auxi/modelling/core.py
@@ -57,7 +57,11 @@ class VariableGroup(NamedObject):
 
     def __init__(self, name, value, units=None, category=None,
                  description=None):
-        super(Variable, self).__init__(name, description)
+        super().__init__(name, description)
+
+        self.category = category
+        self.value = value
+        self.units = units
 
     def __call__(self):
         return self.value
-- 
2.43.0


From b9b869b1393dc4bf9a4972c89696cfbe4e66cf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:14 +0000
Subject: [PATCH 45/59] fix: Colebrook's friction factor could not be
 calculated

---
 .../transportphenomena/fluidflow/pressuredrop.py    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/auxi/tools/transportphenomena/fluidflow/pressuredrop.py b/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
index bb6b30c..65702db 100644
--- a/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
+++ b/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
@@ -91,20 +91,21 @@ def f_tr_Colebrook(Re_D, ɛ, D):
     :return: Friction factor.
     """
 
-    def cb(f, Re_D, ɛ, D):
+    def cb(x, Re_D, ɛ, D):
         """
-        Calculate the Colebrook function in the form that the Darcy friction
-        factor roots can be calculated.
+        Calculate the Colebrook function in the form that its root
+        x = 1 / sqrt(f), with f the Darcy friction factor, can be calculated.
 
         Source: cengel2018, Eq. 8-74.
         """
         term1 = ɛ / D / 3.7
-        term2 = 2.51 / Re_D / sqrt(f)
+        term2 = 2.51 / Re_D * x[0]
 
-        return -2 * log10(term1 + term2) - 1 / sqrt(f)
+        return -2 * log10(term1 + term2) - x[0]
 
     # find the roots of the Colebrook equation
-    return root(cb, 0.02, args=(Re_D, ɛ, D)).x[0]
+    x = root(cb, 1 / sqrt(0.02), args=(Re_D, ɛ, D)).x[0]
+    return 1 / x**2
 
 
 def D_h(A, P):
-- 
2.43.0


From f4608fdce7868104252d5ea60950a0e0fb881ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:19 +0000
Subject: [PATCH 46/59] fix: a blank line after the custom properties of a
 thermo material raised IndexError

---
 auxi/modelling/process/materials/thermo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 679cdf8..490bd8c 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -137,6 +137,8 @@ class Material(NamedObject):
         if must_read_custom_properties:
             for i in range(i+1, len(lines)):
                 strings = lines[i].split(" ")
+                if len(strings) < len(assay_names) + 1:  # Not a full line.
+                    continue
                 for j in range(0, len(self.raw_assays)):
                     assay_name = assay_names[j]
                     property_name = strings[0]
-- 
2.43.0


From a66f1a5f8d3d3cfa6cfed6f6d8d778d19079c459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:19 +0000
Subject: [PATCH 47/59] fix: two values of the air data set were not numbers

---
 .../data/dataset-air-lienhard2018.csv                           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/tools/materialphysicalproperties/data/dataset-air-lienhard2018.csv b/auxi/tools/materialphysicalproperties/data/dataset-air-lienhard2018.csv
index ee39447..8c4de2d 100644
--- a/auxi/tools/materialphysicalproperties/data/dataset-air-lienhard2018.csv
+++ b/auxi/tools/materialphysicalproperties/data/dataset-air-lienhard2018.csv
@@ -5,7 +5,7 @@ Temperature,Density,Heat Capacity,Dynamic Viscosity,Kinematic Viscosity,Thermal
 T,\rho,C_p,\mu,\nu,k,\alpha,Pr
 K,kg/m3,J/kg/K,kg/m/s,m2/s,W/m/K,m2/s,None
 T,rho,Cp,mu,nu,k,alpha,Pr
-100,3.605,1039,0.711E-5,0.197E−5,0.00941,0.251E−5,0.784
+100,3.605,1039,0.711E-5,0.197E-5,0.00941,0.251E-5,0.784
 150,2.368,1012,1.035E-05,4.37E-06,0.01406,5.87E-06,0.745
 200,1.769,1007,1.333E-05,7.54E-06,0.01836,1.031E-05,0.731
 250,1.412,1006,1.606E-05,1.137E-05,0.02241,1.578E-05,0.721
-- 
2.43.0


From 8c3094f9abca6dcf7a3a0ea88dae8c05def76f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:42 +0000
Subject: [PATCH 48/59] fix: an activity kept the schedule of an earlier run
 when the model was changed

---
 auxi/modelling/business/structure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 08c7b25..0bc08dc 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -88,6 +88,10 @@ class Activity(NamedObject):
           requested to be run for.
         """
 
+        self.start_period_ix = -1
+        self.end_period_ix = -1
+        self.period_count = -1
+
         if self.start_period_ix == -1 and self.start_datetime != datetime.min:
             # Set the Start period index
             for i in range(0, period_count):
-- 
2.43.0


From e8d2b03c303bbabaa0c51a99bde9ae833457e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:57 +0000
Subject: [PATCH 49/59] fix: the bibliography left out entries of types that
 are not standard in BibTeX (@report, @online)

---
 auxi/core/bibliography.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/auxi/core/bibliography.py b/auxi/core/bibliography.py
index b637ba8..eb598f8 100644
--- a/auxi/core/bibliography.py
+++ b/auxi/core/bibliography.py
@@ -5,6 +5,7 @@ This package provides auxi's bibliography, and tools to interact with it.
 
 
 import bibtexparser
+from bibtexparser.bparser import BibTexParser
 from os import path
 
 
@@ -30,7 +31,10 @@ class Database(object):
         with open(path) as file:
             bibtex_str = file.read()
 
-        bib_database = bibtexparser.loads(bibtex_str)
+        # Entry types such as @report and @online must not be left out.
+        parser = BibTexParser(common_strings=True,
+                              ignore_nonstandard_types=False)
+        bib_database = bibtexparser.loads(bibtex_str, parser)
         self._dict = bib_database.get_entry_dict()
 
     def __str__(self):
-- 
2.43.0


From 4e28ea7ef7678c253ca2bbcc2231bba99f6ccb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:43 +0000
Subject: [PATCH 50/59] fix: the temperature of a package or stream of very
 large mass was lost

---
 auxi/modelling/process/materials/thermo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 490bd8c..e1aa751 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -735,6 +735,8 @@ class MaterialPackage(Object):
             y.append(self._calculate_H(x[i]) - H)
             if abs(y[i-1]) < 1.0e-5 * min(1.0, self.mass):
                 break
+            if y[i] == y[i-1]:  # As close as rounding allows.
+                break
 
         return x[len(x) - 1]
 
@@ -1463,6 +1465,8 @@ class MaterialStream(Object):
             y.append(self._calculate_Hfr(x[i]) - Hfr)
             if abs(y[i-1]) < 1.0e-5 * min(1.0, self.mfr):
                 break
+            if y[i] == y[i-1]:  # As close as rounding allows.
+                break
 
         return x[len(x) - 1]
 
-- 
2.43.0


From 775dced85069c3794318bcdf501d8546f5e9c54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:24 +0000
Subject: [PATCH 51/59] fix: reports failed on dates without a time: text or
 date limits, or transactions of a day

---
 auxi/modelling/financial/reporting.py | 36 +++++++++++++++++++--------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 846019b..31b9add 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -3,7 +3,7 @@
 This module provides classes to manage currencies.
 """
 
-from datetime import datetime
+from datetime import datetime, time
 
 from enum import Enum
 
@@ -31,6 +31,22 @@ class ReportType(Enum):
     cash_flow = 4
 
 
+def get_datetime(date, time_of_day=time.min):
+    """
+    Get the datetime of a date, which may be text, a date or a datetime.
+
+    :param date: The date.
+    :param time_of_day: The time of day used if the date does not have one.
+
+    :returns: The datetime.
+    """
+
+    date = get_date(date)
+    if isinstance(date, datetime):
+        return date
+    return datetime.combine(date, time_of_day)
+
+
 class Report(ReportBase):
     """
     Base class for reports.
@@ -98,8 +114,8 @@ class TransactionList(Report):
     def __init__(self, data_source, start=datetime.min.date(),
                  end=datetime.max.date(), component_path="",
                  output_path=None):
-        self.start_date = get_date(start)
-        self.end_date = get_date(end)
+        self.start_date = get_datetime(start)
+        self.end_date = get_datetime(end, time.max)
         self.component_path = component_path
         super(TransactionList, self).__init__(data_source, output_path)
 
@@ -108,10 +124,10 @@ class TransactionList(Report):
                   "Credit Account", "Amount", "Description"]]
         amount_tot = 0
         tx_list = self.data_source.transactions
-        for t in sorted(tx_list, key=lambda v: v.tx_date):
+        for t in sorted(tx_list, key=lambda v: get_datetime(v.tx_date)):
             if not self._is_in_component_(t.source):
                 continue
-            if self.start_date <= t.tx_date <= self.end_date:
+            if self.start_date <= get_datetime(t.tx_date) <= self.end_date:
                 if t.source.endswith(t.name):
                     name = ''
                 else:
@@ -138,7 +154,7 @@ class BalanceSheet(Report):
     def __init__(self, data_source, end=datetime.max.date(), output_path=None):
         """
         """
-        self.end_date = get_date(end)
+        self.end_date = get_datetime(end, time.max)
         super(BalanceSheet, self).__init__(data_source, output_path)
 
     def _sum_amounts_per_account_(self):
@@ -148,7 +164,7 @@ class BalanceSheet(Report):
         summedEquity = {}
 
         for t in self.data_source.transactions:
-            if t.tx_date <= self.end_date:
+            if get_datetime(t.tx_date) <= self.end_date:
                 cr_account_type = gls.get_account(t.cr_account).account_type
                 dt_account_type = gls.get_account(t.dt_account).account_type
                 if cr_account_type == AccountType.asset:
@@ -256,8 +272,8 @@ class IncomeStatement(Report):
                  end=datetime.max.date(), component_path="", output_path=None):
         """
         """
-        self.start_date = get_date(start)
-        self.end_date = get_date(end)
+        self.start_date = get_datetime(start)
+        self.end_date = get_datetime(end, time.max)
         self.component_path = component_path
         super(IncomeStatement, self).__init__(data_source, output_path)
 
@@ -268,7 +284,7 @@ class IncomeStatement(Report):
         for t in self.data_source.transactions:
             if not self._is_in_component_(t.source):
                 continue
-            if self.start_date <= t.tx_date <= self.end_date:
+            if self.start_date <= get_datetime(t.tx_date) <= self.end_date:
                 cr_account_type = gls.get_account(t.cr_account).account_type
                 dt_account_type = gls.get_account(t.dt_account).account_type
                 if not t.is_closing_cr_account and \
-- 
2.43.0


From 0584dc4f1e3466cfa225b8665b0bf20b387b807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:24 +0000
Subject: [PATCH 52/59] fix: a transaction list or a report on a component
 failed on a transaction without a source

---
 auxi/modelling/financial/reporting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 31b9add..8293d9d 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -60,6 +60,7 @@ class Report(ReportBase):
 
     def _is_in_component_(self, source):
         path = self.component_path
+        source = source or ""
         return path == "" or source == path or \
             source.startswith(path.rstrip('/') + '/')
 
@@ -128,11 +129,12 @@ class TransactionList(Report):
             if not self._is_in_component_(t.source):
                 continue
             if self.start_date <= get_datetime(t.tx_date) <= self.end_date:
-                if t.source.endswith(t.name):
+                source = t.source or ""
+                if source.endswith(t.name):
                     name = ''
                 else:
                     name = t.name
-                table.append([t.tx_date, t.source, name,
+                table.append([t.tx_date, source, name,
                               t.dt_account, t.cr_account,
                               "%.2f" % t.amount,
                               "" if t.description is None else t.description])
-- 
2.43.0


From c0c2efdc788aa16e989d50d39bc02fe8d34f6fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:24 +0000
Subject: [PATCH 53/59] fix: a model whose start date is given as text had a
 clock without a time of day

---
 auxi/modelling/business/models.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/business/models.py b/auxi/modelling/business/models.py
index 41450de..20d9bda 100644
--- a/auxi/modelling/business/models.py
+++ b/auxi/modelling/business/models.py
@@ -3,7 +3,7 @@
 This module provides classes to work with business models.
 """
 
-from datetime import datetime
+from datetime import datetime, time
 
 from auxi.core.objects import NamedObject
 from auxi.core.time import Clock, TimePeriod
@@ -41,9 +41,12 @@ class TimeBasedModel(NamedObject):
                  start_datetime=datetime.now(),
                  period_duration=TimePeriod.year,
                  period_count=1):
+        start_datetime = get_date(start_datetime)
+        if not isinstance(start_datetime, datetime):  # without a time
+            start_datetime = datetime.combine(start_datetime, time.min)
         self.clock = Clock(
             "Clock",
-            start_datetime=get_date(start_datetime),
+            start_datetime=start_datetime,
             timestep_period_duration=period_duration)
         self.period_count = period_count
         self.entities = []
-- 
2.43.0


From 629a7e8da753794bafadc5f23a5b142edbaa8ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:24 +0000
Subject: [PATCH 54/59] fix: a loan whose start date is given as text was
 refused

---
 auxi/modelling/business/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index 3c1cf08..b7fcab5 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -175,6 +175,7 @@ class BasicLoanActivity(Activity):
                  description=None):
         """
         """
+        start = self._get_date_(start)
         super(BasicLoanActivity, self).__init__(
             name,
             description=description,
-- 
2.43.0


From 32fb4452a13c6d14dde68ba79ab8a8c38518689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:24 +0000
Subject: [PATCH 55/59] fix: the models of dry ash free coal failed at
 temperatures of a few kelvin

---
 auxi/tools/materialphysicalproperties/coals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/coals.py b/auxi/tools/materialphysicalproperties/coals.py
index ac320ac..1cf5ac5 100644
--- a/auxi/tools/materialphysicalproperties/coals.py
+++ b/auxi/tools/materialphysicalproperties/coals.py
@@ -89,7 +89,7 @@ class DafCpTy(DafThermoTy):
         :param z: dimensionless temperature
         """
 
-        return exp(z) / ((exp(z) - 1.0) / z) ** 2.0
+        return (z * exp(-z / 2.0) / (1.0 - exp(-z))) ** 2.0
 
     def calculate(self, **state):
         """
@@ -140,7 +140,7 @@ class DafHTy(DafThermoTy):
         :param z: dimensionless temperature
         """
 
-        return 1 / (exp(z) - 1)
+        return exp(-z) / (1.0 - exp(-z))
 
     def calculate(self, **state):
         """
-- 
2.43.0


From 2730ac4bc6c940329c023072002003b9258cc086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:07 +0000
Subject: [PATCH 56/59] fix: the income statement took accounts for cost of
 sales by the first letters of their name

---
 auxi/modelling/financial/reporting.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 8293d9d..abdaf38 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -315,6 +315,11 @@ class IncomeStatement(Report):
                             summedExpenses[t.dt_account] = t.amount
         return summedIncome, summedExpenses
 
+    def _is_cost_of_sales_(self, entry):
+        # The account can have another name, or a namesake.
+        path = self.data_source.structure._acci_cos_.path
+        return entry == path or entry.startswith(path + '/')
+
     def _generate_table_(self):
         summedIncome, summedExpenses = self._sum_amounts_per_account_()
 
@@ -332,7 +337,7 @@ class IncomeStatement(Report):
         table.append(["-------------", "", ""])
         cos_sum = 0
         for entry in summedExpenses:
-            if entry.startswith('Cost of Sales'):
+            if self._is_cost_of_sales_(entry):
                 cos_sum += summedExpenses[entry]
                 table.append([entry, "%.2f" % summedExpenses[entry], ""])
         table.append(["", "", "--------"])
@@ -343,7 +348,7 @@ class IncomeStatement(Report):
         table.append(["Expenses", "", ""])
         table.append(["--------", "", ""])
         for entry in summedExpenses:
-            if not entry.startswith('Cost of Sales'):
+            if not self._is_cost_of_sales_(entry):
                 table.append([entry, "%.2f" % summedExpenses[entry], ""])
         table.append(["", "--------", ""])
         table.append(["Total Expenses", "%.2f" % (sum_expenses - cos_sum), ""])
-- 
2.43.0


From e137124fb8641d97abec603be380475b0b4bba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:53 +0000
Subject: [PATCH 57/59] fix: the year end failed when a transaction was dated
 with text or a date without a time

---
 auxi/modelling/business/structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 0bc08dc..ab9db2e 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -10,6 +10,7 @@ from collections import OrderedDict
 from auxi.core.objects import NamedObject
 from auxi.modelling.financial.des import AccountType
 from auxi.modelling.financial.des import GeneralLedger
+from auxi.modelling.financial.reporting import get_datetime
 
 
 __version__ = '0.3.6'
@@ -419,7 +420,7 @@ class Entity(NamedObject):
             cost_of_sales_accs = gls.get_account_descendants(gls._acci_cos_)
             year_taxes = []
             for tx in self.gl.transactions:
-                if year_start_date <= tx.tx_date <= year_end_date:
+                if year_start_date <= get_datetime(tx.tx_date) <= year_end_date:
                     year_taxes.append(tx)
             for tx in year_taxes:
                 cr_acc = gls.get_account(tx.cr_account)
-- 
2.43.0


From fa394a4c5821bc6bd1d80df7033598d4191f5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:04 +0000
Subject: [PATCH 58/59] fix: the chart of accounts report left out main
 accounts with other numbers

---
 auxi/modelling/financial/reporting.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index abdaf38..ba3d996 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -88,12 +88,16 @@ class GeneralLedgerStructure(Report):
     def _generate_table_(self):
         table = [["Type", "Number", "Name", "Description"]]
 
-        i = [a for a in self.data_source.accounts if a.number.startswith('I')]
-        for acc in sorted(i, key=lambda a: a.number):
+        income_types = [AccountType.revenue, AccountType.expense]
+
+        i = [a for a in self.data_source.accounts
+             if a.account_type in income_types]
+        for acc in sorted(i, key=lambda a: a.number or ''):
             self._gl_accounts_to_table_(table, acc)
 
-        b = [a for a in self.data_source.accounts if a.number.startswith('B')]
-        for acc in sorted(b, key=lambda a: a.number):
+        b = [a for a in self.data_source.accounts
+             if a.account_type not in income_types]
+        for acc in sorted(b, key=lambda a: a.number or ''):
             self._gl_accounts_to_table_(table, acc)
         return table
 
-- 
2.43.0


From b838f62918cd9e680a2a9259b66eb6a6fbfe0d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:04 +0000
Subject: [PATCH 59/59] fix: long names and numbers ran into the next column
 when materials were printed

---
 auxi/modelling/process/materials/chem.py   |  8 ++++----
 auxi/modelling/process/materials/psd.py    | 10 +++++-----
 auxi/modelling/process/materials/slurry.py | 14 +++++++-------
 auxi/modelling/process/materials/thermo.py | 16 ++++++++--------
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index 3da8283..3d59f4e 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -72,15 +72,15 @@ class Material(NamedObject):
         result += 'Compound'.ljust(20)
         assay_names = sorted(self.assays.keys())
         for assay_name in assay_names:
-            result += assay_name.ljust(20)
+            result += (assay_name + ' ').ljust(20)
         result += '\n'
 
         # Create the content lines of the table.
         for compound in self.compounds:
-            result += compound.ljust(20)
+            result += (compound + ' ').ljust(20)
             compound_ix = self.get_compound_index(compound)
             for assay_name in assay_names:
-                result += str(self.assays[assay_name][compound_ix]).ljust(20)
+                result += (str(self.assays[assay_name][compound_ix]) + ' ').ljust(20)
             result += '\n'
         return result
 
@@ -254,7 +254,7 @@ class MaterialPackage(Object):
         result += 'Component masses:\n'
         for compound in self.material.compounds:
             index = self.material.get_compound_index(compound)
-            result += compound.ljust(20) + str(self.compound_masses[index])
+            result += (compound + ' ').ljust(20) + str(self.compound_masses[index])
             result += '\n'
         return result
 
diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index 9eb96a8..55efcea 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -109,16 +109,16 @@ class Material(NamedObject):
         result = result + "Compound".ljust(20)
         assay_names = sorted(self.assays.keys())
         for assay_name in assay_names:
-            result = result + assay_name.ljust(20)
+            result = result + (assay_name + " ").ljust(20)
         result = result + "\n"
 
         # Create the content lines of the table.
         for size_class in self.size_classes:
-            result = result + str(size_class).ljust(20)
+            result = result + (str(size_class) + " ").ljust(20)
             compound_index = self.get_size_class_index(size_class)
             for assay_name in assay_names:
-                result = result + str(
-                    self.assays[assay_name][compound_index]).ljust(20)
+                result = result + (str(
+                    self.assays[assay_name][compound_index]) + " ").ljust(20)
             result = result + "\n"
         return result
 
@@ -253,7 +253,7 @@ class MaterialPackage(Object):
         result = result + "Component masses:\n"
         for size_class in self.material.size_classes:
             index = self.material.get_size_class_index(size_class)
-            result = result + str(size_class).ljust(20) + str(
+            result = result + (str(size_class) + " ").ljust(20) + str(
                 self.size_class_masses[index]) + "\n"
         return result
 
diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 5f7f2bd..56e3530 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -146,30 +146,30 @@ class Material(NamedObject):
         result = result + "Compound".ljust(20)
         assay_names = sorted(self.assays.keys())
         for assay_name in assay_names:
-            result = result + assay_name.ljust(20)
+            result = result + (assay_name + " ").ljust(20)
         result = result + "\n"
 
         # Create the solid density line.
         result = result + "Solid density".ljust(20)
         assay_names = sorted(self.assays.keys())
         for assay_name in assay_names:
-            result = result + str(self.solid_densities[assay_name]).ljust(20)
+            result = result + (str(self.solid_densities[assay_name]) + " ").ljust(20)
         result = result + "\n"
 
         # Create the H2O fraction line.
         result = result + "H2O fraction".ljust(20)
         assay_names = sorted(self.assays.keys())
         for assay_name in assay_names:
-            result = result + str(self.H2O_fractions[assay_name]).ljust(20)
+            result = result + (str(self.H2O_fractions[assay_name]) + " ").ljust(20)
         result = result + "\n"
 
         # Create the content lines of the table.
         for size_class in self.size_classes:
-            result = result + str(size_class).ljust(20)
+            result = result + (str(size_class) + " ").ljust(20)
             compound_index = self.get_size_class_index(size_class)
             for assay_name in assay_names:
-                result = result + str(
-                    self.assays[assay_name][compound_index]).ljust(20)
+                result = result + (str(
+                    self.assays[assay_name][compound_index]) + " ").ljust(20)
             result = result + "\n"
         return result
 
@@ -354,7 +354,7 @@ class MaterialPackage(Object):
         result = result + "Component masses:\n"
         for size_class in self.material.size_classes:
             index = self.material.get_size_class_index(size_class)
-            result = result + str(size_class).ljust(24) + str(
+            result = result + (str(size_class) + " ").ljust(24) + str(
                 self.size_class_masses[index]) + "\n"
         return result
 
diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index e1aa751..ae889ff 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -178,7 +178,7 @@ class Material(NamedObject):
 
         # Create the content lines of the table.
         for compound in sorted(self.compounds):
-            result = result + compound.ljust(20)
+            result = result + (compound + " ").ljust(20)
             compound_index = self.get_compound_index(compound)
             pad = ''
             for assay_name in assay_names:
@@ -207,7 +207,7 @@ class Material(NamedObject):
             properties = sorted(set(self.custom_properties))
             for prop in properties:
                 pad = ''
-                result += prop.ljust(20)
+                result += (prop + " ").ljust(20)
                 for assay_name in assay_names:
                     result += pad + "{:.8e}".format(
                         self.assay_custom_properties[assay_name].get(
@@ -443,7 +443,7 @@ class MaterialPackage(Object):
         if mass > 0.0:
             for compound in self.material.compounds:
                 index = self.material.get_compound_index(compound)
-                result += compound.ljust(20) + '{:.8e}'.format(
+                result += (compound + " ").ljust(20) + '{:.8e}'.format(
                     self._compound_masses[index])
                 result += "  " + \
                           '{:.8e}'.format(self._compound_masses[index] / mass)
@@ -453,7 +453,7 @@ class MaterialPackage(Object):
         else:
             for compound in self.material.compounds:
                 index = self.material.get_compound_index(compound)
-                result += compound.ljust(20) + '{:.8e}'.format(0.0)
+                result += (compound + " ").ljust(20) + '{:.8e}'.format(0.0)
                 result += "  " + '{:.8e}'.format(0.0)
                 result += "  " + '{:.8e}'.format(0.0)
                 result += "\n"
@@ -465,7 +465,7 @@ class MaterialPackage(Object):
             result += b2
             properties = list(sorted(self.custom_properties.keys()))
             for prop in properties:
-                result += prop.ljust(20)
+                result += (prop + " ").ljust(20)
                 result += "{:.8e}".format(self.custom_properties[prop])
                 result += "\n"
 
@@ -1154,7 +1154,7 @@ class MaterialStream(Object):
         if mfr > 0.0:
             for compound in self.material.compounds:
                 index = self.material.get_compound_index(compound)
-                result += compound.ljust(20) + '{:.8e}'.format(
+                result += (compound + " ").ljust(20) + '{:.8e}'.format(
                     self._compound_mfrs[index])
                 result += "  " + \
                           '{:.8e}'.format(self._compound_mfrs[index] / mfr)
@@ -1164,7 +1164,7 @@ class MaterialStream(Object):
         else:
             for compound in self.material.compounds:
                 index = self.material.get_compound_index(compound)
-                result += compound.ljust(20) + '{:.8e}'.format(0.0)
+                result += (compound + " ").ljust(20) + '{:.8e}'.format(0.0)
                 result += "  " + '{:.8e}'.format(0.0)
                 result += "  " + '{:.8e}'.format(0.0)
                 result += "\n"
@@ -1176,7 +1176,7 @@ class MaterialStream(Object):
             result += b2
             properties = list(sorted(self.custom_properties.keys()))
             for prop in properties:
-                result += prop.ljust(20)
+                result += (prop + " ").ljust(20)
                 result += "{:.8e}".format(self.custom_properties[prop])
                 result += "\n"
 
-- 
2.43.0

