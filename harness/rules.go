package main

const baseRule = "cases are sentences of the dialects' grammars (generated with hostile names, strings, numbers, expressions, bodies and layouts), systematic lists of words, types, defaults, constraint pairs and single-token changes, and mutations of all of these; a case counts as non-trivial if the specification says what must happen and the observed outcome was compared with it; distinct by relation, dialect and text. "

var rules = func() map[string]string {
	m := map[string]string{}
	for p, s := range map[string]string{
		"C01": "Monitored: panics, process death, CPU time and memory of every call, for all dialects and ParseForce, also for arbitrary bytes and very large texts.",
		"C02": "Monitored: the error/tables contract of every call; texts with one bad statement among good ones; texts without statements.",
		"C04": "Compared: number and order of tables, schema, name, flag; statements that are skipped with hostile bodies.",
		"C05": "Compared: number, order and names of columns.", "C06": "Compared: type name and digits of every column.",
		"C07": "Compared: flags, constraint name and collation of every column.", "C08": "Compared: type and value of every default.",
		"C09": "Compared: text of every expression.", "C10": "Compared: all lists of table constraints.", "C11": "Compared: all references.",
		"C12": "Related: the same tokens under two layouts.", "C13": "Related: the same text with quoted contents replaced by placeholders.",
		"C14": "Related: the same text with keywords in other cases.", "C15": "Monitored: acceptance of every text of the grammar.",
		"C16": "Monitored: rejection of every text outside the grammar.", "C17": "Compared: near text, line and message of every error.",
		"C18": "Related: the parts of a text and their concatenation.", "C19": "Related: the seven entry points.",
		"C20": "Related: the same text with unrepresented clauses removed.", "C21": "Monitored: JSON encoding, keys, decoding, value types of every result.",
		"C22": "Compared: texts and clauses of one dialect under another.", "C23": "Compared: texts with one dimension scaled, also around the constants in the source.",
	} {
		m[p] = baseRule + s
	}
	m["C03"] = "calls (text, entry point) in families of related texts, made concurrently under the race detector as the first calls of a process, then alone, in long shuffled histories with scribbled results, and in fresh processes; further long histories without the race detector, and the general workloads one after the other in long-lived processes; distinct by entry point and text within a process; every one is compared with its repetitions"
	m["C24"] = "a case is a kind of text (head, repeated unit, tail) in a dialect, measured at 32 KB and at 256 KB or 1 MB: bytes allocated (exact) and CPU time; distinct by dialect and kind; the small text is also compared with the specification"
	m["C25"] = "a case is a text and an entry point, called in a process whose system calls are filtered by the kernel, with its settings, goroutines and standard files compared around every group of calls, and the live heap measured while numbered variants of the text go through; texts are those of the general workloads and lists and templates whose names all differ; distinct by text"
	return m
}()
