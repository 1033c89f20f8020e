package spec

import "strings"

func kws(s string) []string { return strings.Fields(s) }

// Rules shared by the dialects.
func common() map[string]*Node {
	name, expr := Prim(OpName), Prim(OpExpr)
	return map[string]*Node{
		"ddl":  Many(R("stmt")),
		"ifne": Kseq("IF NOT EXISTS"),
		// [schema.]table
		"tname":   Seq(name, Opt(K("."), name)),
		"names":   Seq(K("("), List(R("nm")), K(")")),
		"name1":   Seq(K("("), R("nm"), K(")")),
		"nm":      name,
		"cname":   Seq(K("CONSTRAINT"), name),
		"expr":    expr,
		"digN":    Seq(K("("), Prim(OpPosInt), K(")")),
		"digPS":   Seq(K("("), Prim(OpPosInt), Opt(K(","), Prim(OpPosInt)), K(")")),
		"default": Seq(K("DEFAULT"), Alt(R("expr"), R("literal"))),
		"literal": Alt(Prim(OpNum), Prim(OpStr), K("NULL", "TRUE", "FALSE", "CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMP")),
		"check":   Seq(K("CHECK"), R("expr")),
		"notnull": Kseq("NOT NULL"),
		"action": Seq(K("ON"), K("DELETE", "UPDATE"),
			Alt(Seq(K("SET"), K("NULL", "DEFAULT")), K("CASCADE", "RESTRICT"), Kseq("NO ACTION"))),
		"match": Seq(K("MATCH"), K("SIMPLE", "PARTIAL", "FULL")),
	}
}

func build(d Dialect, reserved string, rules map[string]*Node) *Grammar {
	all := common()
	for k, v := range rules {
		all[k] = v
	}
	g := &Grammar{D: d, Rules: all, Reserved: words(reserved)}
	return g.finish()
}

func sqliteGrammar() *Grammar {
	name := Prim(OpName)
	return build(SQLite, reservedSQLite, map[string]*Node{
		"stmt":      Seq(K("CREATE"), Inv(K("TEMP", "TEMPORARY")), Alt(R("table"), R("other"))),
		"other":     Seq(K(kws("VIRTUAL VIEW TRIGGER INDEX UNIQUE")...), Prim(OpSkip), K(";")),
		"table":     Seq(K("TABLE"), Opt(R("ifne")), R("tname"), K("("), List(R("def")), K(")"), Inv(R("tabopt")), R("end")),
		"end":       Alt(K(";"), Prim(OpEnd)),
		"def":       Alt(R("tcon"), R("column")),
		"column":    Seq(R("nm"), R("type"), R("ccs")),
		"type":      K(kws("TEXT NUMERIC INTEGER REAL NONE")...),
		"ccs":       {Op: OpUniq, Kids: []*Node{Opt(R("cname")), R("cc")}},
		"cc":        Alt(R("pk"), R("notnull"), R("uq"), R("check"), R("default"), R("collate"), R("refs"), R("generated")),
		"conflict":  Seq(Kseq("ON CONFLICT"), K(kws("ROLLBACK ABORT FAIL IGNORE REPLACE")...)),
		"pk":        Seq(Kseq("PRIMARY KEY"), Inv(K("ASC", "DESC")), Inv(R("conflict")), Opt(R("auto"))),
		"auto":      K("AUTOINCREMENT"),
		"notnull":   Seq(Kseq("NOT NULL"), Inv(R("conflict"))),
		"uq":        Seq(K("UNIQUE"), Inv(R("conflict"))),
		"collate":   Seq(K("COLLATE"), R("collname")),
		"collname":  K("BINARY", "NOCASE", "RTRIM"),
		"generated": Seq(Alt(Kseq("GENERATED ALWAYS AS"), K("AS")), R("expr"), Inv(K("STORED", "VIRTUAL"))),
		"refs":      Seq(K("REFERENCES"), R("tname"), Opt(R("name1")), InvMany(R("refopt"))),
		"refopt": Alt(R("action"), R("match"),
			Seq(Alt(Unless(Kseq("NOT DEFERRABLE"), "NULL"), K("DEFERRABLE")), Inv(K("INITIALLY"), K("DEFERRED", "IMMEDIATE")))),
		"match":  Seq(K("MATCH"), Alt(K("SIMPLE", "PARTIAL", "FULL"), name)),
		"tcon":   Alt(Seq(R("cname"), R("tcon1")), R("tcon1")),
		"tcon1":  Alt(R("tpk"), R("tuq"), R("tcheck"), R("tfk")),
		"tpk":    Seq(Kseq("PRIMARY KEY"), R("names"), Inv(R("conflict"))),
		"tuq":    Seq(K("UNIQUE"), R("names"), Inv(R("conflict"))),
		"tcheck": R("check"),
		"tfk":    Seq(Kseq("FOREIGN KEY"), R("names"), R("trefs")),
		"trefs":  Seq(K("REFERENCES"), R("tname"), Opt(R("names")), InvMany(R("refopt"))),
		"tabopt": Alt(Seq(Kseq("WITHOUT ROWID"), Inv(K(","), K("STRICT"))), Seq(K("STRICT"), Inv(K(","), Kseq("WITHOUT ROWID")))),
	})
}

const postgresTypes = `BIGINT INT8 BIGSERIAL SERIAL8 BOOLEAN BOOL BOX BYTEA CIDR CIRCLE DATE FLOAT8 INET INTEGER INT INT4
 JSON JSONB LINE LSEG MACADDR MACADDR8 MONEY PATH PG_LSN PG_SNAPSHOT POINT POLYGON REAL FLOAT4 SMALLINT INT2
 SMALLSERIAL SERIAL2 SERIAL SERIAL4 TEXT TIMETZ TIMESTAMPTZ TSQUERY TSVECTOR TXID_SNAPSHOT UUID XML`

func postgresGrammar() *Grammar {
	name := Prim(OpName)
	tz := Inv(K("WITH", "WITHOUT"), Kseq("TIME ZONE"))
	return build(PostgreSQL, reservedPostgreSQL, map[string]*Node{
		"stmt": Seq(K("CREATE"), Alt(R("table"), R("other"))),
		"other": Seq(K(kws(`VIEW TRIGGER INDEX MATERIALIZED SEQUENCE FUNCTION TYPE PROCEDURE AGGREGATE SCHEMA ROLE USER GROUP
			TABLESPACE EXTENSION DATABASE LANGUAGE FOREIGN DOMAIN SERVER CONVERSION RULE COLLATION POLICY OPERATOR`)...), Prim(OpSkip), K(";")),
		"table":  Seq(K("TABLE"), Opt(R("ifne")), R("tname"), K("("), List(R("def")), K(")"), InvMany(Seq(Opt(K(",")), R("tabopt"))), K(";")),
		"def":    Alt(R("tcon"), R("column")),
		"column": Seq(R("nm"), R("type"), R("ccs")),
		"type": Alt(
			Seq(K("BIT", "CHARACTER"), Opt(K("VARYING")), Opt(R("digN"))),
			Seq(K("VARBIT", "VARCHAR", "CHAR"), Opt(R("digN"))),
			Seq(K("NUMERIC", "DECIMAL"), Opt(R("digPS"))),
			Seq(K("DOUBLE"), R("precision")),
			Seq(K("TIME", "TIMESTAMP"), Opt(R("digN")), tz),
			K(kws(postgresTypes)...)),
		"precision": K("PRECISION"),
		"ccs":       {Op: OpUniq, Kids: []*Node{Opt(R("cname")), R("cc")}, Alias: map[string]string{"NOT": "NULL"}},
		"cc":        Alt(R("pk"), R("notnull"), R("null"), R("uq"), R("pcheck"), R("default"), R("refs"), R("generated")),
		"null":      K("NULL"),
		"pk":        Seq(Kseq("PRIMARY KEY"), R("idxpar")),
		"uq":        Seq(K("UNIQUE"), R("idxpar")),
		"idxpar": Seq(Inv(K("INCLUDE"), K("("), List(name), K(")")), Inv(K("WITH"), Prim(OpExpr)),
			Inv(Kseq("USING INDEX TABLESPACE"), name)),
		"pcheck": Seq(R("check"), Inv(Kseq("NO INHERIT"))),
		"refs":   Seq(K("REFERENCES"), R("tname"), Opt(R("name1")), InvMany(R("refopt"))),
		"refopt": Alt(R("action"), R("match")),
		"generated": Alt(
			Seq(K("AS"), Prim(OpExpr), Inv(K("STORED", "VIRTUAL"))),
			Seq(K("GENERATED"), Alt(
				Seq(K("ALWAYS"), K("AS"), Alt(R("identity"), Seq(Prim(OpExpr), K("STORED")))),
				Seq(Kseq("BY DEFAULT AS"), R("identity")),
				Seq(K("AS"), R("identity"))))),
		"identity": Seq(K("IDENTITY"), Inv(Prim(OpExpr))),
		"tcon":     Alt(Seq(R("cname"), R("tcon1")), R("tcon1")),
		"tcon1":    Alt(R("tpk"), R("tuq"), R("tcheck"), R("tfk"), R("texclude")),
		"tpk":      Seq(Kseq("PRIMARY KEY"), R("names"), R("idxpar")),
		"tuq":      Seq(K("UNIQUE"), R("names"), R("idxpar")),
		"tcheck":   R("pcheck"),
		"tfk":      Seq(Kseq("FOREIGN KEY"), R("names"), R("trefs")),
		"trefs":    Seq(K("REFERENCES"), R("tname"), Opt(R("names")), InvMany(R("refopt"))),
		"texclude": Seq(K("EXCLUDE"), Inv(K("USING"), name), Prim(OpExpr), R("idxpar"), Inv(K("WHERE"), Prim(OpExpr))),
		"tabopt": Alt(Seq(K("WITH"), Prim(OpExpr)), Kseq("WITHOUT OIDS"), Seq(K("TABLESPACE"), name), Seq(K("INHERITS"), Prim(OpExpr)),
			Seq(Kseq("PARTITION BY"), K("RANGE", "LIST", "HASH"), Prim(OpExpr)), Seq(K("USING"), name)),
	})
}

func mysqlGrammar() *Grammar {
	name, str := Prim(OpName), Prim(OpStr)
	eq := Inv(K("="))
	tz := Inv(K("WITH", "WITHOUT"), Kseq("TIME ZONE"))
	idxname := Inv(Else(name, "USING", "("))
	return build(MySQL, reservedMySQL, map[string]*Node{
		"stmt": Seq(K("CREATE"), Alt(R("table"), R("other"))),
		"other": Seq(K(kws(`VIEW TRIGGER INDEX DATABASE UNIQUE PROCEDURE SERVER FUNCTION USER EVENT SEQUENCE TABLESPACE ROLE LOGIN`)...),
			Prim(OpSkip), K(";")),
		"table":  Seq(K("TABLE"), Opt(R("ifne")), R("tname"), K("("), List(R("def")), K(")"), InvMany(Seq(Opt(K(",")), R("tabopt"))), K(";")),
		"def":    Alt(R("tcon"), R("column")),
		"column": Seq(R("nm"), R("type"), R("ccs")),
		"type": Alt(
			Seq(K(kws("VARCHAR CHAR BINARY VARBINARY BLOB TEXT")...), Opt(R("digN"))),
			Seq(K(kws("NUMERIC DECIMAL FLOAT REAL DOUBLE")...), Opt(R("digPS"))),
			Seq(K(kws("BIT TINYINT SMALLINT MEDIUMINT INT INTEGER BIGINT")...), Opt(R("digN"))),
			Seq(K(kws("TIME DATETIME TIMESTAMP YEAR")...), Opt(R("digN")), tz),
			K(kws(`SERIAL BOOL BOOLEAN DATE GEOMETRY POINT LINESTRING POLYGON MULTIPOINT MULTILINESTRING MULTIPOLYGON
				GEOMETRYCOLLECTION JSON`)...)),
		"ccs": {Op: OpUniq, Kids: []*Node{Opt(R("cnameopt")), R("cc")},
			Alias: map[string]string{"NOT": "NULL", "KEY": "PRIMARY", "AS": "GENERATED"}},
		"cnameopt": Seq(K("CONSTRAINT"), Alt(Else(name, "CHECK"), Look("CHECK"))),
		"cc": Alt(R("pk"), R("notnull"), R("null"), R("uq"), R("mcheck"), R("mdefault"), R("collate"), R("refs"), R("generated"),
			R("comment"), R("colformat"), R("engattr"), R("storage"), R("attr"), R("auto")),
		"pk":        Alt(K("KEY"), Kseq("PRIMARY KEY")),
		"null":      K("NULL"),
		"uq":        Seq(K("UNIQUE"), Inv(K("KEY"))),
		"mcheck":    Seq(R("check"), Inv(Alt(K("ENFORCED"), Unless(Kseq("NOT ENFORCED"), "NULL")))),
		"mdefault":  Seq(K("DEFAULT"), Alt(R("expr"), Seq(R("literal"), Inv(Kseq("ON UPDATE"), K("CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMP"))))),
		"collate":   Seq(K("COLLATE"), R("collname")),
		"collname":  name,
		"refs":      Seq(K("REFERENCES"), R("tname"), Opt(R("name1")), InvMany(R("refopt"))),
		"refopt":    Alt(R("action"), R("match")),
		"generated": Seq(Alt(Kseq("GENERATED ALWAYS AS"), K("AS")), Prim(OpExpr)),
		"comment":   Seq(K("COMMENT"), str),
		"colformat": Seq(K("COLUMN_FORMAT"), K("FIXED", "DYNAMIC", "DEFAULT")),
		"engattr":   Seq(K("ENGINE_ATTRIBUTE", "SECONDARY_ENGINE_ATTRIBUTE"), eq, str),
		"storage":   Seq(K("STORAGE"), K("DISK", "MEMORY")),
		"attr":      K("VISIBLE", "INVISIBLE", "VIRTUAL", "STORED"),
		"auto":      K("AUTO_INCREMENT"),
		"tcon":      Alt(Seq(R("tcname"), R("tcon1")), R("tcon1")),
		"tcname":    Seq(K("CONSTRAINT"), Alt(Else(name, kws("PRIMARY UNIQUE FOREIGN CHECK")...), Look(kws("PRIMARY UNIQUE FOREIGN CHECK")...))),
		"tcon1":     Alt(R("tpk"), R("tuq"), R("tfk"), R("tcheck"), R("index"), R("ftindex")),
		"using":     Seq(K("USING"), K("BTREE", "HASH")),
		"keyparts":  Seq(K("("), List(R("keypart")), K(")")),
		"keypart":   Seq(Alt(R("kexpr"), Seq(R("nm"), Inv(K("("), Prim(OpPosInt), K(")")))), Inv(K("ASC", "DESC"))),
		"kexpr":     Prim(OpExpr),
		"tpk":       Seq(Kseq("PRIMARY KEY"), Inv(R("using")), R("keyparts"), InvMany(R("idxopt"))),
		"tuq":       Seq(K("UNIQUE"), Inv(K("INDEX", "KEY")), idxname, Inv(R("using")), R("keyparts"), InvMany(R("idxopt"))),
		"tcheck":    R("mcheck"),
		"tfk":       Seq(Kseq("FOREIGN KEY"), Inv(Else(name, "(")), R("names"), R("trefs")),
		"trefs":     Seq(K("REFERENCES"), R("tname"), R("keyparts"), InvMany(R("refopt"))),
		"index":     Seq(K("INDEX", "KEY"), idxname, Inv(R("using")), R("keyparts"), InvMany(R("idxopt"))),
		"ftindex":   Seq(K("FULLTEXT", "SPATIAL"), Inv(K("INDEX", "KEY")), Inv(Else(name, "(")), R("keyparts"), InvMany(R("idxopt"))),
		"idxopt": Alt(Seq(K("KEY_BLOCK_SIZE"), eq, R("value")), R("using"), Seq(Kseq("WITH PARSER"), name), Seq(K("COMMENT"), str),
			K("VISIBLE", "INVISIBLE"), Seq(K("ENGINE_ATTRIBUTE", "SECONDARY_ENGINE_ATTRIBUTE"), eq, str)),
		"value": Alt(Prim(OpNum), Prim(OpStr), K("NULL", "TRUE", "FALSE", "CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMP")),
		"tabopt": Alt(
			Seq(K(kws("AUTOEXTEND_SIZE AUTO_INCREMENT AVG_ROW_LENGTH KEY_BLOCK_SIZE MAX_ROWS MIN_ROWS STATS_SAMPLE_PAGES")...), eq, R("value")),
			Seq(K(kws("COMMENT ENGINE_ATTRIBUTE PASSWORD SECONDARY_ENGINE_ATTRIBUTE CONNECTION COMPRESSION ENCRYPTION")...), eq, str),
			Seq(Alt(K("COLLATE", "ENGINE"), Kseq("CHARACTER SET")), eq, name),
			Seq(K("CHECKSUM", "DELAY_KEY_WRITE"), eq, K("0", "1")),
			Seq(K("PACK_KEYS", "STATS_AUTO_RECALC", "STATS_PERSISTENT"), eq, K("0", "1", "DEFAULT")),
			Seq(K("DATA", "INDEX"), K("DIRECTORY"), eq, R("value")),
			Seq(K("TABLESPACE"), name, Inv(K("STORAGE"), K("DISK", "MEMORY"))),
			Seq(K("DEFAULT"), Alt(Kseq("CHARACTER SET"), K("COLLATE")), eq, name),
			Seq(K("UNION"), eq, K("("), List(R("tname")), K(")")),
			Seq(K("INSERT_METHOD"), eq, K("NO", "FIRST", "LAST")),
			Seq(K("ROW_FORMAT"), eq, K(kws("DEFAULT DYNAMIC FIXED COMPRESSED REDUNDANT COMPACT")...))),
	})
}

// Grammars by dialect.
var Grammars = map[Dialect]*Grammar{SQLite: sqliteGrammar(), PostgreSQL: postgresGrammar(), MySQL: mysqlGrammar()}
