From 35c90926e3d956ae706ef4baba2398ef0467949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:23 +0000
Subject: [PATCH 01/25] fix: mv command reports a failed update instead of
 discarding the error

---
 ddl/mv_cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddl/mv_cmd.go b/ddl/mv_cmd.go
index 29cde10..25af152 100644
--- a/ddl/mv_cmd.go
+++ b/ddl/mv_cmd.go
@@ -123,11 +123,11 @@ func (cmd *MvCmd) Run() error {
 	b.WriteString(" WHERE filename = '" + EscapeQuote(cmd.SrcFilename, '\'') + "'")
 	result, err := cmd.DB.Exec(b.String())
 	if err != nil {
-		return nil
+		return err
 	}
 	rowsAffected, err := result.RowsAffected()
 	if err != nil {
-		return nil
+		return err
 	}
 	fmt.Fprintln(cmd.Stderr, strconv.FormatInt(rowsAffected, 10)+" rows affected")
 	if err != nil {
-- 
2.43.0


From 64bb9343d40e6f4a96ae98d8282b9790a94832f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:23 +0000
Subject: [PATCH 02/25] fix: ls command reports an error that ends the reading
 of the history table

---
 ddl/ls_cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddl/ls_cmd.go b/ddl/ls_cmd.go
index 69f8b4a..9ad4981 100644
--- a/ddl/ls_cmd.go
+++ b/ddl/ls_cmd.go
@@ -185,7 +185,7 @@ func (cmd *LsCmd) Run() error {
 				}
 			}
 		}
-		err = rows.Close()
+		err = closeRows(rows)
 		if err != nil {
 			return err
 		}
@@ -270,7 +270,7 @@ func (cmd *LsCmd) Run() error {
 				return err
 			}
 		}
-		err = rows.Close()
+		err = closeRows(rows)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 4a8c0c23be81638017aedf828f89265c59d49bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:23 +0000
Subject: [PATCH 03/25] fix: migrate command reports an error that ends the
 reading of the history table

---
 ddl/migrate_cmd.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index bb9f16e..2bbd6c7 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -252,6 +252,10 @@ func (cmd *MigrateCmd) Run() error {
 				}
 			}
 		}
+		err = closeRows(rows)
+		if err != nil {
+			return err
+		}
 	}
 
 	conn, err := cmd.DB.Conn(cmd.Ctx)
-- 
2.43.0


From e680cb58c1fce66c3ab63b772a2abdfc8d18bd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:23 +0000
Subject: [PATCH 04/25] fix: dump command reports an error that ends the
 reading of a table

---
 ddl/dump_cmd.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 8bbcbd5..218e545 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -992,6 +992,10 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 			return err
 		}
 	}
+	err = closeRows(rows)
+	if err != nil {
+		return err
+	}
 	csvWriter.Flush()
 	err = csvWriter.Error()
 	if err != nil {
-- 
2.43.0


From efb1d0274477fa140a83516826ebb5d364d25259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:23 +0000
Subject: [PATCH 05/25] fix: GetVersion and GetTriggers report errors that end
 the reading of the result set

---
 ddl/database_introspector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index 984ac5d..05a9750 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -300,7 +300,7 @@ func (dbi *DatabaseIntrospector) GetVersion() (version string, err error) {
 			return "", fmt.Errorf("scanning version: %w", err)
 		}
 	}
-	return version, nil
+	return version, closeRows(rows)
 }
 
 // GetVersionNums returns the version numbers of the database.
@@ -1385,7 +1385,7 @@ func (dbi *DatabaseIntrospector) GetTriggers() ([]Trigger, error) {
 		trigger.SQL = strings.ReplaceAll(trigger.SQL, "\r\n", "\n")
 		triggers = append(triggers, trigger)
 	}
-	return triggers, nil
+	return triggers, closeRows(rows)
 }
 
 // GetViews returns the views in the database.
-- 
2.43.0


From 986e7c2926ec4426d24834c45507bee410e14163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:45 +0000
Subject: [PATCH 06/25] fix: subsetter reports an error that ends the reading
 of a table

---
 ddl/subsetter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index d7f5f5a..cd0d5be 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -300,6 +300,10 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 		}
 		result.records = append(result.records, record)
 	}
+	err = closeRows(rows)
+	if err != nil {
+		return err
+	}
 	tableID := [2]string{baseTable.TableSchema, baseTable.TableName}
 	ss.results = append(ss.results, result)
 	baseFkey := &Constraint{
-- 
2.43.0


From 06aa021c367a199e205a32dc90cb604a16227094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:21:04 +0000
Subject: [PATCH 07/25] fix: tables and views commands report a failure to
 close the output file

---
 ddl/tables_cmd.go | 9 ++++++++-
 ddl/views_cmd.go  | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/ddl/tables_cmd.go b/ddl/tables_cmd.go
index 3d54064..5762af4 100644
--- a/ddl/tables_cmd.go
+++ b/ddl/tables_cmd.go
@@ -193,8 +193,9 @@ func (cmd *TablesCmd) Run() error {
 	}
 
 	out := cmd.Stdout
+	var file *os.File
 	if cmd.Filename != "" {
-		file, err := os.OpenFile(cmd.Filename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
+		file, err = os.OpenFile(cmd.Filename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 		if err != nil {
 			return err
 		}
@@ -209,5 +210,11 @@ func (cmd *TablesCmd) Run() error {
 	if err != nil {
 		return err
 	}
+	if file != nil {
+		err = file.Close()
+		if err != nil {
+			return err
+		}
+	}
 	return nil
 }
diff --git a/ddl/views_cmd.go b/ddl/views_cmd.go
index 1439345..15beaf7 100644
--- a/ddl/views_cmd.go
+++ b/ddl/views_cmd.go
@@ -148,8 +148,9 @@ func (cmd *ViewsCmd) Run() error {
 	}
 
 	out := cmd.Stdout
+	var file *os.File
 	if cmd.Filename != "" {
-		file, err := os.OpenFile(cmd.Filename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
+		file, err = os.OpenFile(cmd.Filename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 		if err != nil {
 			return err
 		}
@@ -164,5 +165,11 @@ func (cmd *ViewsCmd) Run() error {
 	if err != nil {
 		return err
 	}
+	if file != nil {
+		err = file.Close()
+		if err != nil {
+			return err
+		}
+	}
 	return nil
 }
-- 
2.43.0


From d95268a35db19b1cf11c1453143d1896b3b252e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:48:41 +0000
Subject: [PATCH 08/25] fix: migrate command no longer crashes on a lock
 timeout while starting a transaction

Starting the transaction can itself time out. No migration has been reached
at that point, so the index of the current migration is negative and must not
be used to look up its filename. The filename is also printed as text instead
of being interpreted as a format string.
---
 ddl/migrate_cmd.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index 2bbd6c7..df8ed76 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -393,9 +393,14 @@ func (cmd *MigrateCmd) runWithRetry(conn *sql.Conn, queue []migration) error {
 		attempts++
 		stoppedAt, migrationErr := cmd.run(conn, queue)
 		if migrationErr != nil && isRetryable && cmd.driver.IsLockTimeout != nil && cmd.driver.IsLockTimeout(migrationErr) {
+			// stoppedAt is negative if the transaction could not be started.
+			filename := queue[0].filename
+			if stoppedAt >= 0 {
+				filename = queue[stoppedAt].filename
+			}
 			if attempts >= cmd.MaxAttempts {
-				fmt.Fprintf(cmd.Stderr, queue[stoppedAt].filename+": attempt %d/%d timed out\n", attempts, cmd.MaxAttempts)
-				return fmt.Errorf("%s: %w", queue[stoppedAt].filename, migrationErr)
+				fmt.Fprintf(cmd.Stderr, "%s: attempt %d/%d timed out\n", filename, attempts, cmd.MaxAttempts)
+				return fmt.Errorf("%s: %w", filename, migrationErr)
 			}
 			multiplier := int(math.Exp2(float64(attempts)))
 			delay := time.Duration(rng.Intn(int(cmd.BaseDelay*time.Duration(multiplier)/time.Second))) * time.Second
@@ -404,7 +409,7 @@ func (cmd *MigrateCmd) runWithRetry(conn *sql.Conn, queue []migration) error {
 			} else if delay > cmd.MaxDelay {
 				delay = cmd.MaxDelay
 			}
-			fmt.Fprintf(cmd.Stderr, queue[stoppedAt].filename+": attempt %d/%d timed out, retrying in %s\n", attempts, cmd.MaxAttempts, delay.String())
+			fmt.Fprintf(cmd.Stderr, "%s: attempt %d/%d timed out, retrying in %s\n", filename, attempts, cmd.MaxAttempts, delay.String())
 			time.Sleep(delay)
 			continue
 		}
-- 
2.43.0


From 1b009ca8d59a5b9dd1ea75cfee15ec01c2bfd007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:48:45 +0000
Subject: [PATCH 09/25] fix: delay between migration attempts never crashes and
 respects the maximum

A base delay of less than half a second, or enough attempts for the doubled
delay to overflow, made the random number generator panic. A base delay above
the maximum delay was used as is.
---
 ddl/migrate_cmd.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index df8ed76..4b5061b 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -402,11 +402,18 @@ func (cmd *MigrateCmd) runWithRetry(conn *sql.Conn, queue []migration) error {
 				fmt.Fprintf(cmd.Stderr, "%s: attempt %d/%d timed out\n", filename, attempts, cmd.MaxAttempts)
 				return fmt.Errorf("%s: %w", filename, migrationErr)
 			}
-			multiplier := int(math.Exp2(float64(attempts)))
-			delay := time.Duration(rng.Intn(int(cmd.BaseDelay*time.Duration(multiplier)/time.Second))) * time.Second
+			limit := cmd.BaseDelay
+			for i := 0; i < attempts && limit > 0 && limit <= math.MaxInt64/2; i++ {
+				limit *= 2
+			}
+			delay := cmd.BaseDelay
+			if n := int(limit / time.Second); n > 0 {
+				delay = time.Duration(rng.Intn(n)) * time.Second
+			}
 			if delay < cmd.BaseDelay {
 				delay = cmd.BaseDelay
-			} else if delay > cmd.MaxDelay {
+			}
+			if delay > cmd.MaxDelay {
 				delay = cmd.MaxDelay
 			}
 			fmt.Fprintf(cmd.Stderr, "%s: attempt %d/%d timed out, retrying in %s\n", filename, attempts, cmd.MaxAttempts, delay.String())
-- 
2.43.0


From 6748e60f6a0c4235470a68227abbe46f3b31bf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:32:18 +0000
Subject: [PATCH 10/25] fix: compare versions with missing components as zero

---
 ddl/ddl.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ddl/ddl.go b/ddl/ddl.go
index 8a07751..a095960 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -1100,6 +1100,15 @@ func (v VersionNums) LowerThan(nums ...int) bool {
 			return true
 		}
 	}
+	// Missing components count as zero e.g. 8 is lower than 8.5. An unknown
+	// version (no components) is not lower than anything.
+	if len(v) > 0 && len(nums) > len(v) {
+		for _, num := range nums[len(v):] {
+			if num > 0 {
+				return true
+			}
+		}
+	}
 	return false
 }
 
-- 
2.43.0


From b8ac270bff567bec27253651b3906a5648bfde64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:38:59 +0000
Subject: [PATCH 11/25] fix: escape every quote, also in text that contains
 doubled quotes

---
 ddl/sq.go | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/ddl/sq.go b/ddl/sq.go
index dcfe810..96cf8c8 100644
--- a/ddl/sq.go
+++ b/ddl/sq.go
@@ -76,29 +76,10 @@ func QuoteIdentifier(dialect string, identifier string) string {
 	}
 }
 
-// TODO: replace all invocations with strings.ReplaceAll.
 // EscapeQuote will escape the relevant quote in a string by doubling up on it
 // (as per SQL rules).
 func EscapeQuote(str string, quote byte) string {
-	i := strings.IndexByte(str, quote)
-	if i < 0 {
-		return str
-	}
-	var b strings.Builder
-	b.Grow(len(str) + strings.Count(str, string(quote)))
-	for i >= 0 {
-		b.WriteString(str[:i])
-		b.WriteByte(quote)
-		b.WriteByte(quote)
-		if len(str[i:]) > 2 && str[i] == quote && str[i+1] == quote {
-			str = str[i+2:]
-		} else {
-			str = str[i+1:]
-		}
-		i = strings.IndexByte(str, quote)
-	}
-	b.WriteString(str)
-	return b.String()
+	return strings.ReplaceAll(str, string(quote), string(quote)+string(quote))
 }
 
 // SQLite keyword reference: https://www.sqlite.org/lang_keywords.html
-- 
2.43.0


From bcabe4660a489ac8a3ab13fba558805048dbe1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:47:12 +0000
Subject: [PATCH 12/25] fix: strip only a whole directory prefix from migration
 filenames

A file whose name starts with the directory's name, such as
migrations_v2.sql with -dir migrations, lost part of its name.
The leading dot of a hidden file was removed as well.
---
 ddl/touch_cmd.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ddl/touch_cmd.go b/ddl/touch_cmd.go
index 5e521ce..8e78dc7 100644
--- a/ddl/touch_cmd.go
+++ b/ddl/touch_cmd.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"io/fs"
 	"os"
+	"path"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -310,16 +311,15 @@ func validateFilesExist(fsys fs.FS, filenames []string) error {
 func normalizeFilename(filename, dir string) string {
 	filename = filepath.ToSlash(filename)
 	dir = filepath.ToSlash(dir)
-	if dir == "" {
+	if dir == "" || filename == "" {
 		return filename
 	}
-	if strings.HasPrefix(filename, ".") {
-		filename = strings.TrimPrefix(strings.TrimPrefix(filename, "."), "/")
-	}
-	if strings.HasPrefix(dir, ".") {
-		dir = strings.TrimPrefix(strings.TrimPrefix(dir, "."), "/")
+	filename = path.Clean(filename)
+	dir = path.Clean(dir)
+	if dir == "." {
+		return filename
 	}
-	return strings.TrimPrefix(strings.TrimPrefix(filename, dir), "/")
+	return strings.TrimPrefix(filename, strings.TrimSuffix(dir, "/")+"/")
 }
 
 func sortAndFilterFilenames(filenames []string) []string {
-- 
2.43.0


From fc8d0cf020ed00cf1074648ae86c631399dc8f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:48:29 +0000
Subject: [PATCH 13/25] fix: run each selected migration file only once

A file named twice on the command line was executed twice in one run.
---
 ddl/touch_cmd.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ddl/touch_cmd.go b/ddl/touch_cmd.go
index 8e78dc7..9cf5a74 100644
--- a/ddl/touch_cmd.go
+++ b/ddl/touch_cmd.go
@@ -325,6 +325,7 @@ func normalizeFilename(filename, dir string) string {
 func sortAndFilterFilenames(filenames []string) []string {
 	result := make([]string, 0, len(filenames))
 	repeatable := make([]string, 0, len(filenames))
+	seen := make(map[string]bool)
 	for _, filename := range filenames {
 		filename = filepath.ToSlash(filename)
 		if !strings.HasSuffix(filename, ".sql") || strings.HasSuffix(filename, ".undo.sql") {
@@ -334,6 +335,10 @@ func sortAndFilterFilenames(filenames []string) []string {
 		if basename == "schema.sql" || basename == "indexes.sql" || basename == "constraints.sql" {
 			continue
 		}
+		if seen[filename] {
+			continue
+		}
+		seen[filename] = true
 		if strings.HasPrefix(filename, "repeatable/") {
 			repeatable = append(repeatable, filename)
 		} else {
-- 
2.43.0


From 0282914042ac193b40fc28959d590124914379d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:38:05 +0000
Subject: [PATCH 14/25] fix: close input files of load when a transaction
 cannot begin or stat fails

---
 ddl/load_cmd.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ddl/load_cmd.go b/ddl/load_cmd.go
index fed2f8e..f08cc84 100644
--- a/ddl/load_cmd.go
+++ b/ddl/load_cmd.go
@@ -221,6 +221,7 @@ func (cmd *LoadCmd) Run() error {
 			}
 			tx, err := conn.BeginTx(cmd.Ctx, nil)
 			if err != nil {
+				contents.Close()
 				return err
 			}
 			err = cmd.loadCSV(cmd.Ctx, tx, filename, contents)
@@ -251,10 +252,10 @@ func (cmd *LoadCmd) Run() error {
 			return err
 		}
 		fileinfo, err := file.Stat()
+		file.Close()
 		if err != nil {
 			return err
 		}
-		file.Close()
 		if fileinfo.IsDir() {
 			err = cmd.loadDir(conn, filename)
 			if err != nil {
@@ -656,6 +657,7 @@ func (cmd *LoadCmd) loadZip(conn *sql.Conn, zipName string) error {
 				}
 				tx, err := conn.BeginTx(ctx, nil)
 				if err != nil {
+					contents.Close()
 					return err
 				}
 				filename := filepath.ToSlash(filepath.Join(zipName, f.Name))
@@ -672,6 +674,7 @@ func (cmd *LoadCmd) loadZip(conn *sql.Conn, zipName string) error {
 			}
 			tx, err := conn.BeginTx(cmd.Ctx, nil)
 			if err != nil {
+				contents.Close()
 				return err
 			}
 			filename := filepath.ToSlash(filepath.Join(zipName, f.Name))
@@ -936,6 +939,7 @@ func (cmd *LoadCmd) loadDir(conn *sql.Conn, dirname string) error {
 				}
 				tx, err := cmd.DB.BeginTx(ctx, nil)
 				if err != nil {
+					contents.Close()
 					return err
 				}
 				err = cmd.loadCSV(ctx, tx, filename, contents)
@@ -951,6 +955,7 @@ func (cmd *LoadCmd) loadDir(conn *sql.Conn, dirname string) error {
 			}
 			tx, err := conn.BeginTx(cmd.Ctx, nil)
 			if err != nil {
+				contents.Close()
 				return err
 			}
 			err = cmd.loadCSV(cmd.Ctx, tx, filename, contents)
-- 
2.43.0


From 7572644f0d5ae329997fcdc058c3e0b60e302289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:38:05 +0000
Subject: [PATCH 15/25] fix: close output files of dump when writing them fails

---
 ddl/dump_cmd.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 218e545..4fb023c 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -534,6 +534,7 @@ func (cmd *DumpCmd) dumpDir() error {
 		if err != nil {
 			return err
 		}
+		defer file.Close()
 		encoder := json.NewEncoder(file)
 		encoder.SetIndent("", "  ")
 		err = encoder.Encode(cmd.catalog)
@@ -551,6 +552,7 @@ func (cmd *DumpCmd) dumpDir() error {
 		if err != nil {
 			return err
 		}
+		defer file.Close()
 		err = cmd.dumpSchema(file)
 		if err != nil {
 			return err
@@ -566,6 +568,7 @@ func (cmd *DumpCmd) dumpDir() error {
 		if err != nil {
 			return err
 		}
+		defer file.Close()
 		err = cmd.dumpIndexes(file)
 		if err != nil {
 			return err
@@ -581,6 +584,7 @@ func (cmd *DumpCmd) dumpDir() error {
 		if err != nil {
 			return err
 		}
+		defer file.Close()
 		err = cmd.dumpConstraints(file)
 		if err != nil {
 			return err
@@ -604,6 +608,7 @@ func (cmd *DumpCmd) dumpDir() error {
 				if err != nil {
 					return err
 				}
+				defer file.Close()
 				err = cmd.dumpCSV(ctx, file, q.table, q.query)
 				if err != nil {
 					return err
-- 
2.43.0


From 6a702ec120919f16be24908311a793ccc59ee11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:38:05 +0000
Subject: [PATCH 16/25] fix: close the output file and the database handle of
 generate on failure

---
 ddl/generate_cmd.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ddl/generate_cmd.go b/ddl/generate_cmd.go
index 30029d5..aad9329 100644
--- a/ddl/generate_cmd.go
+++ b/ddl/generate_cmd.go
@@ -205,6 +205,7 @@ func (cmd *GenerateCmd) Run() error {
 		}
 		_, err = outputfile.ReadFrom(file)
 		if err != nil {
+			outputfile.Close()
 			return err
 		}
 		err = outputfile.Close()
@@ -376,6 +377,7 @@ func writeCatalog(catalog *Catalog, fsys fs.FS, historyTable, s string) error {
 	if err != nil {
 		return err
 	}
+	defer db.Close()
 	dbi := NewDatabaseIntrospector(dialect, db)
 	dbi.ObjectTypes = []string{"TABLES"}
 	dbi.ExcludeTables = []string{historyTable}
-- 
2.43.0


From 7947a593822f650966be46eb3385303c83a8f6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:38:05 +0000
Subject: [PATCH 17/25] fix: close the database handle of a migrate command
 that cannot be made

---
 ddl/automigrate_cmd.go | 5 +++++
 ddl/migrate_cmd.go     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/ddl/automigrate_cmd.go b/ddl/automigrate_cmd.go
index 5991c70..9f9f5f8 100644
--- a/ddl/automigrate_cmd.go
+++ b/ddl/automigrate_cmd.go
@@ -120,6 +120,11 @@ Flags:
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			cmd.DB.Close()
+		}
+	}()
 	cmd.DirFS = dirFS(dir)
 	if dest != "" {
 		dbi := NewDatabaseIntrospector(cmd.Dialect, cmd.DB)
diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index 4b5061b..a7e4159 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -125,6 +125,11 @@ Flags:
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			cmd.DB.Close()
+		}
+	}()
 	cmd.DirFS = dirFS(dir)
 	if lockTimeout != "" {
 		cmd.LockTimeout, err = time.ParseDuration(lockTimeout)
-- 
2.43.0


From 08e086dc521b2959eff3684e07d69126297d5bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:11:24 +0000
Subject: [PATCH 18/25] fix: batch insert panics when there are more key
 columns than columns

---
 ddl/batch_insert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/batch_insert.go b/ddl/batch_insert.go
index c01acc7..a2f8998 100644
--- a/ddl/batch_insert.go
+++ b/ddl/batch_insert.go
@@ -108,7 +108,7 @@ func (bi *BatchInsert) ExecContext(ctx context.Context, db DB, next func([]any)
 	for _, column := range keyColumns {
 		isKeyColumn[column] = struct{}{}
 	}
-	nonKeyColumns := make([]string, 0, len(bi.Columns)-len(keyColumns))
+	nonKeyColumns := make([]string, 0, len(bi.Columns))
 	for _, column := range bi.Columns {
 		if _, ok := isKeyColumn[column]; ok {
 			continue
-- 
2.43.0


From 52a0d864a8dd94f880a36abec8c07136a4988066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:11:24 +0000
Subject: [PATCH 19/25] fix: batch insert panics on a negative batch size

---
 ddl/batch_insert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/batch_insert.go b/ddl/batch_insert.go
index a2f8998..ce82a1a 100644
--- a/ddl/batch_insert.go
+++ b/ddl/batch_insert.go
@@ -316,7 +316,7 @@ func (bi *BatchInsert) ExecContext(ctx context.Context, db DB, next func([]any)
 
 	// insert values using insertStmt (and updateStmt), batch by batch
 	var batchcounter int
-	args := make([]any, 0, bi.Batchsize*len(bi.Columns))
+	args := make([]any, 0, batchsize*len(bi.Columns))
 	rowvalue := make([]any, len(bi.Columns))
 	for {
 		err = next(rowvalue)
-- 
2.43.0


From eae7cca365b7704d7d1149a6cb924ed90f59db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:11:24 +0000
Subject: [PATCH 20/25] fix: batch insert sends empty batches when only one row
 fits the parameter limit

---
 ddl/batch_insert.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/batch_insert.go b/ddl/batch_insert.go
index ce82a1a..fec40d7 100644
--- a/ddl/batch_insert.go
+++ b/ddl/batch_insert.go
@@ -154,6 +154,9 @@ func (bi *BatchInsert) ExecContext(ctx context.Context, db DB, next func([]any)
 	}
 	if paramlimit > 0 {
 		maxBatchsize := int(math.Floor(float64(paramlimit)/float64(len(bi.Columns)))) - 1
+		if maxBatchsize < 1 {
+			maxBatchsize = 1
+		}
 		if batchsize > maxBatchsize {
 			batchsize = maxBatchsize
 		}
-- 
2.43.0


From 14db46c9b5e487a8829e018f13934406f0572b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:03:26 +0000
Subject: [PATCH 21/25] fix: a column type with a stray closing bracket panics

---
 ddl/ddl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/ddl.go b/ddl/ddl.go
index a095960..7d96f45 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -761,7 +761,7 @@ func normalizeColumnType(dialect string, columnType string) (normalizedType, arg
 	var args, suffix string
 	i := strings.Index(columnType, "(")
 	j := strings.LastIndex(columnType, ")")
-	if j > i {
+	if i >= 0 && j > i {
 		normalizedType = strings.TrimSpace(columnType[:i])
 		args = strings.TrimSpace(columnType[i+1 : j])
 		suffix = strings.TrimSpace(columnType[j+1:])
-- 
2.43.0


From 1a11e7d1f7d920a82f2f0c6f562e8e332a549646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:03:26 +0000
Subject: [PATCH 22/25] fix: Sprintf panics when a sqlite query has more
 placeholders than arguments

---
 ddl/sq.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/sq.go b/ddl/sq.go
index 96cf8c8..99fa81e 100644
--- a/ddl/sq.go
+++ b/ddl/sq.go
@@ -672,6 +672,9 @@ func lookupParam(dialect string, args []any, paramName []rune, namedIndices map[
 		if paramName[0] != '?' {
 			return "", fmt.Errorf("parameter name missing")
 		}
+		if runningArgsIndex >= len(args) {
+			return "", fmt.Errorf("too few args provided, expected more than %d", runningArgsIndex)
+		}
 		paramValue, err = Sprint(dialect, args[runningArgsIndex])
 		if err != nil {
 			return "", err
-- 
2.43.0


From b5e2e4dafc2b9791ef9de9a2da129d7b94f6ccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:03:26 +0000
Subject: [PATCH 23/25] fix: a foreign key modifier without references panics

---
 ddl/struct_parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ddl/struct_parser.go b/ddl/struct_parser.go
index a0a5e42..85b92f6 100644
--- a/ddl/struct_parser.go
+++ b/ddl/struct_parser.go
@@ -312,7 +312,9 @@ func (p *StructParser) WriteCatalog(catalog *Catalog) error {
 			case FOREIGN_KEY:
 				column.ReferencesSchema = constraint.ReferencesSchema
 				column.ReferencesTable = constraint.ReferencesTable
-				column.ReferencesColumn = constraint.ReferencesColumns[0]
+				if len(constraint.ReferencesColumns) > 0 {
+					column.ReferencesColumn = constraint.ReferencesColumns[0]
+				}
 				column.UpdateRule = constraint.UpdateRule
 				column.DeleteRule = constraint.DeleteRule
 				column.IsDeferrable = constraint.IsDeferrable
-- 
2.43.0


From 09570d2fdefb908e8bd316b2fc9305349d1c8280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:03:26 +0000
Subject: [PATCH 24/25] fix: malformed subset queries panic

---
 ddl/subsetter.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index cd0d5be..c0c3886 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -104,7 +104,7 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 	var result queryResult
 	str := query
 	for i := strings.IndexByte(str, OPEN_BRACE); i >= 0; i = strings.IndexByte(str, OPEN_BRACE) {
-		if i+1 <= len(str) && str[i+1] == OPEN_BRACE {
+		if i+1 < len(str) && str[i+1] == OPEN_BRACE {
 			str = str[i+2:]
 			continue
 		}
@@ -114,7 +114,7 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 			return fmt.Errorf("no %q found", CLOSE_BRACE)
 		}
 		if str[:j+1] == "{*}" {
-			if starStart > 0 {
+			if starStart >= 0 {
 				return fmt.Errorf("more than one {*}")
 			}
 			starStart = len(query) - len(str)
@@ -122,13 +122,19 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 			str = str[j+1:]
 			continue
 		}
-		if tableStart > 0 {
+		if tableStart >= 0 {
 			return fmt.Errorf("more than one {tableName}")
 		}
 		tableStart = len(query) - len(str)
 		tableEnd = tableStart + j + 1
 		str = str[j+1:]
 	}
+	if starStart < 0 {
+		return fmt.Errorf("no {*} found")
+	}
+	if tableStart < starEnd {
+		return fmt.Errorf("no {tableName} found after {*}")
+	}
 	var tableSchema string
 	tableName := query[tableStart+1 : tableEnd-1]
 	if i := strings.Index(tableName, "."); i >= 0 {
-- 
2.43.0


From a1390c74e4686f70bceaf57d2a89df8709455448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:58:30 +0000
Subject: [PATCH 25/25] fix: keep foreign keys already collected when re-adding
 one for SQL Server

The constraint was appended to the list of another kind of foreign keys,
which crashed or lost the keys collected before.
---
 ddl/sqlserver_migration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 5d0b1e6..eeca3f0 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -423,7 +423,7 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 							m.dropFkeys = append(m.dropFkeys, []*Constraint{constraint})
 						}
 						if ok2 {
-							m.addFkeys[n2] = append(m.addFastFkeys[n2], constraint)
+							m.addFkeys[n2] = append(m.addFkeys[n2], constraint)
 						} else {
 							m.addFkeys = append(m.addFkeys, []*Constraint{constraint})
 						}
-- 
2.43.0

