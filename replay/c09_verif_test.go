package ddl

import (
	"bytes"
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"testing"
)

// c09Catalog makes a small catalog from a pool of names.
func c09Catalog(rng *rand.Rand, dialect string) *Catalog {
	catalog := &Catalog{Dialect: dialect, CurrentSchema: "main"}
	coin := func() bool { return rng.Intn(3) > 0 }
	types := []string{"INT", "VARCHAR(100)", "VARCHAR(300)"}
	for _, schemaName := range []string{"main", "other"} {
		if schemaName == "other" && (dialect == DialectSQLite || !coin()) || rng.Intn(12) == 0 {
			continue
		}
		if dialect == DialectSQLite {
			schemaName = ""
		}
		schema := Schema{SchemaName: schemaName}
		for _, tableName := range []string{"a", "b", "c"} {
			if !coin() {
				continue
			}
			table := Table{TableSchema: schemaName, TableName: tableName}
			for _, columnName := range []string{"k", "l", "m", "n"} {
				if columnName != "k" && !coin() {
					continue
				}
				column := Column{TableSchema: schemaName, TableName: tableName, ColumnName: columnName, ColumnType: types[rng.Intn(3)], IsNotNull: coin(), IsGenerated: columnName == "n" && rng.Intn(3) == 0}
				if rng.Intn(4) == 0 {
					column.ColumnDefault = []string{"1", "2"}[rng.Intn(2)]
				}
				table.Columns = append(table.Columns, column)
			}
			pick := func() []string {
				return []string{table.Columns[rng.Intn(len(table.Columns))].ColumnName}
			}
			for _, name := range []string{"i1", "i2"} {
				if coin() {
					table.Indexes = append(table.Indexes, Index{TableSchema: schemaName, TableName: tableName, IndexName: tableName + "_" + name, Columns: pick(), IsUnique: coin()})
				}
			}
			add := func(name, typ string, columns []string) {
				c := Constraint{TableSchema: schemaName, TableName: tableName, ConstraintName: name, ConstraintType: typ, Columns: columns}
				if typ == FOREIGN_KEY {
					c.ReferencesSchema, c.ReferencesTable, c.ReferencesColumns = schemaName, "b", []string{"k"}
				}
				table.Constraints = append(table.Constraints, c)
			}
			if coin() {
				name := []string{"p1", "p2"}[rng.Intn(2)]
				if dialect == DialectMySQL {
					name = "PRIMARY"
				} else {
					name = tableName + "_" + name
				}
				columns := pick()
				add(name, PRIMARY_KEY, columns)
				for i := range table.Columns {
					if table.Columns[i].ColumnName == columns[0] {
						table.Columns[i].IsPrimaryKey = true
					}
				}
			}
			if coin() {
				add(tableName+"_u1", UNIQUE, pick())
			}
			for _, name := range []string{"f1", "f2"} {
				if coin() {
					add(tableName+"_"+name, FOREIGN_KEY, pick())
				}
			}
			schema.Tables = append(schema.Tables, table)
		}
		catalog.Schemas = append(catalog.Schemas, schema)
	}
	return catalog
}

var (
	c09Drop       = regexp.MustCompile(`DROP (TABLE|COLUMN|SCHEMA|VIEW|FUNCTION|PROCEDURE)|TRUNCATE|DELETE FROM`)
	c09Index      = regexp.MustCompile("DROP INDEX (?:IF EXISTS )?(?:[\"`\\[]?\\w+[\"`\\]]?\\.)?[\"`\\[]?(\\w+)")
	c09Constraint = regexp.MustCompile("DROP (?:CONSTRAINT|FOREIGN KEY) (?:IF EXISTS )?[\"`\\[]?(\\w+)")
)

// TestReplay compares many pairs of catalogs without asking for drops and
// looks for drops in the generated migrations.
func TestReplay(t *testing.T) {
	for _, dialect := range []string{DialectSQLite, DialectPostgres, DialectMySQL, DialectSQLServer} {
		rng := rand.New(rand.NewSource(1))
		for round := 0; round < 4000; round++ {
			src, dest := c09Catalog(rng, dialect), c09Catalog(rng, dialect)
			desc := fmt.Sprintf("%s, pair %d:\ncurrent %s\ndesired %s", dialect, round, c09JSON(src), c09JSON(dest))
			filenames, contents, err := c09Migration(dialect, src, dest)
			if err != "" {
				t.Fatalf("%s\n%s", desc, err)
			}
			all := ""
			for i, name := range filenames {
				if !strings.HasSuffix(name, ".undo.sql") {
					all += contents[i]
				}
			}
			if m := c09Drop.FindString(all); m != "" {
				t.Fatalf("%s\n%s without having been asked to:\n%s", desc, m, all)
			}
			if dialect == DialectSQLite {
				continue
			}
			for _, m := range c09Index.FindAllStringSubmatch(all, -1) {
				if !regexp.MustCompile(`CREATE (UNIQUE )?INDEX (CONCURRENTLY )?(IF NOT EXISTS )?[^ \w]?` + m[1] + `\b`).MatchString(all) {
					t.Fatalf("%s\nindex %s is dropped and not created again:\n%s", desc, m[1], all)
				}
			}
			for _, m := range c09Constraint.FindAllStringSubmatch(all, -1) {
				name := m[1]
				if name == "PRIMARY" && strings.Contains(all, "ADD PRIMARY KEY") {
					continue
				}
				if strings.HasSuffix(name, "_p1") || strings.HasSuffix(name, "_p2") {
					other := map[string]string{"1": "2", "2": "1"}[name[len(name)-1:]]
					if strings.Contains(all, name[:len(name)-1]+other) {
						continue
					}
				}
				if !strings.HasSuffix(name, "_u1") && !strings.HasSuffix(name, "_f1") && !strings.HasSuffix(name, "_f2") && !strings.HasSuffix(name, "_p1") && !strings.HasSuffix(name, "_p2") && name != "PRIMARY" {
					continue
				}
				if !regexp.MustCompile(`ADD CONSTRAINT [^ \w]?` + name + `\b`).MatchString(all) {
					t.Fatalf("%s\nconstraint %s is dropped and not added again:\n%s", desc, m[1], all)
				}
			}
		}
	}
}

func c09JSON(catalog *Catalog) string {
	var b strings.Builder
	for _, s := range catalog.Schemas {
		for _, t := range s.Tables {
			fmt.Fprintf(&b, "%s.%s(", s.SchemaName, t.TableName)
			for _, c := range t.Columns {
				fmt.Fprintf(&b, " %s:%s:%v:%s", c.ColumnName, c.ColumnType, c.IsNotNull, c.ColumnDefault)
			}
			for _, c := range t.Constraints {
				fmt.Fprintf(&b, " %s:%s:%v", c.ConstraintName, c.ConstraintType, c.Columns)
			}
			for _, c := range t.Indexes {
				fmt.Fprintf(&b, " %s:%v", c.IndexName, c.Columns)
			}
			b.WriteString(" ) ")
		}
	}
	return b.String()
}

func c09Migration(dialect string, src, dest *Catalog) (filenames, contents []string, err string) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Sprint("crash: ", r)
		}
	}()
	var bufs []*bytes.Buffer
	switch dialect {
	case DialectSQLite:
		m := newSQLiteMigration(src, dest, false)
		filenames, bufs, _ = m.sql("m")
	case DialectPostgres:
		m := newPostgresMigration(src, dest, false)
		filenames, bufs, _ = m.sql("m")
	case DialectMySQL:
		m := newMySQLMigration(src, dest, false)
		filenames, bufs, _ = m.sql("m")
	case DialectSQLServer:
		m := newSQLServerMigration(src, dest, false)
		filenames, bufs, _ = m.sql("m")
	}
	for i := range filenames {
		contents = append(contents, bufs[i].String())
	}
	// Also through the command.
	cmd := &GenerateCmd{Dialect: dialect, SrcCatalog: src, DestCatalog: dest, Prefix: "m", AcceptWarnings: true}
	files, _, e := cmd.Results()
	if e != nil {
		return nil, nil, e.Error()
	}
	for _, file := range files {
		var b bytes.Buffer
		b.ReadFrom(file)
		info, _ := file.Stat()
		filenames = append(filenames, info.Name())
		contents = append(contents, b.String())
		file.Close()
	}
	return filenames, contents, ""
}
