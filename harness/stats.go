package main

// Stats is what the monitors observed.
type Stats struct {
	Calls   int            `json:"calls"`
	Cases   int            `json:"cases"`
	Accept  int            `json:"accept"`
	Reject  int            `json:"reject"`
	Tables  int            `json:"tables"`
	Columns int            `json:"columns"`
	TCons   int            `json:"table_constraints"`
	Skipped int            `json:"skipped"`
	MaxText int            `json:"max_text"`
	MaxCol  int            `json:"max_columns"`
	Extra   map[string]int `json:"extra"`
	Work    map[string]int `json:"workloads"`
	Max     map[string]int `json:"max"`
	// node ids of the grammars that were matched, per dialect
	Nodes map[string]map[int]int `json:"nodes"`
	// keywords seen in accepted texts as a keyword (upper and lower case)
	Words   map[string]bool `json:"words"`
	Samples []string        `json:"samples"`
}

func newStats() *Stats {
	return &Stats{Extra: map[string]int{}, Work: map[string]int{}, Max: map[string]int{}, Nodes: map[string]map[int]int{}, Words: map[string]bool{}}
}

var stats = newStats()

func (s *Stats) merge(o *Stats) {
	for k, n := range o.Max {
		s.Max[k] = max(s.Max[k], n)
	}
	s.Calls += o.Calls
	s.Cases += o.Cases
	s.Accept += o.Accept
	s.Reject += o.Reject
	s.Tables += o.Tables
	s.Columns += o.Columns
	s.TCons += o.TCons
	s.Skipped += o.Skipped
	s.MaxText = max(s.MaxText, o.MaxText)
	s.MaxCol = max(s.MaxCol, o.MaxCol)
	for k, n := range o.Extra {
		s.Extra[k] += n
	}
	for k, n := range o.Work {
		s.Work[k] += n
	}
	for d, m := range o.Nodes {
		if s.Nodes[d] == nil {
			s.Nodes[d] = map[int]int{}
		}
		for k, n := range m {
			s.Nodes[d][k] += n
		}
	}
	for w := range o.Words {
		s.Words[w] = true
	}
	for _, x := range o.Samples {
		if len(s.Samples) < 12 {
			s.Samples = append(s.Samples, x)
		}
	}
}
