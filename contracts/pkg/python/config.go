package python

import "io"

// ---- ConfigParser.Parse: it never panics ----

// The strings functions are known by the lengths of what they return.

//gocv:pure specIndex
func specIndex(s, sub string) int { return -1 }

//gocv:extern strings.Index CFG
func model_Index(s, sub string) int {
	i := specIndex(s, sub)
	assume(i == -1 || 0 <= i && i <= len(s)-len(sub))
	return i
}

//gocv:pure specLastIndex
func specLastIndex(s, sub string) int { return -1 }

//gocv:extern strings.LastIndex CFG
func model_LastIndex(s, sub string) int {
	i := specLastIndex(s, sub)
	assume(i == -1 || 0 <= i && i <= len(s)-len(sub))
	return i
}

//gocv:pure specTrimSpace
func specTrimSpace(s string) string { return s }

//gocv:extern strings.TrimSpace CFG
func model_TrimSpace(s string) string { return specTrimSpace(s) }

//gocv:pure specHasPrefix
func specHasPrefix(s, p string) bool { return false }

//gocv:extern strings.HasPrefix CFG
func model_HasPrefix(s, p string) bool { return specHasPrefix(s, p) }

func nondetString() string { return "" }

//gocv:extern strings.TrimRight CFG
func model_TrimRight(s, cut string) string { return nondetString() }

//gocv:extern strings.Join CFG
func model_Join(s []string, sep string) string { return nondetString() }

func forallKeyConfig(m Config, f func(k string) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

//gocv:contract C23 *ConfigParser.Parse use=CFG noreplay
func contract_Parse(p *ConfigParser, file io.Reader) {
	requires(p != nil && forall(0, len(p.InlineCommentPrefixes), func(i int) bool { return len(p.InlineCommentPrefixes[i]) > 0 }))
	requires(forall(0, len(p.Delimiters), func(i int) bool { return len(p.Delimiters[i]) > 0 }))
	p.OptionTransform = func(s string) string { return s }
	p.Interpolate = NoInterpolation
	config, err := p.Parse(file)
	ensures("either a configuration or an error is returned", (config == nil) == (err != nil))
	ensures("every section has its options", err != nil || forallKeyConfig(config, func(k string) bool { return config[k] != nil }))
}

//gocv:invariant *ConfigParser.Parse use=CFG
func inv_parse_value(curVal []string, curSection ConfigSection) bool {
	return curVal == nil || curSection != nil
}

//gocv:invariant *ConfigParser.Parse use=CFG
func inv_parse_sections(config Config) bool {
	return forallKeyConfig(config, func(k string) bool { return config[k] != nil })
}

//gocv:invariant *ConfigParser.Parse depth=2 use=CFG
func inv_parse_comment(commentStart int, line string) bool {
	return 0 <= commentStart && commentStart <= len(line)
}

//gocv:invariant *ConfigParser.Parse depth=3 use=CFG
func inv_parse_comment3(commentStart int, line string) bool {
	return 0 <= commentStart && commentStart <= len(line)
}

//gocv:invariant *ConfigParser.Parse depth=2 use=CFG
func inv_parse_from(searchFrom []int, line string) bool {
	return forall(0, len(searchFrom), func(i int) bool { return 0 <= searchFrom[i] && searchFrom[i] <= len(line) })
}

//gocv:invariant *ConfigParser.Parse depth=3 use=CFG
func inv_parse_from3(searchFrom []int, line string) bool {
	return forall(0, len(searchFrom), func(i int) bool { return 0 <= searchFrom[i] && searchFrom[i] <= len(line) })
}

//gocv:invariant *ConfigParser.Parse depth=2 use=CFG
func inv_parse_sep(sepPos, sepLen int, value string) bool {
	return 0 <= sepPos && 0 <= sepLen && sepPos+sepLen <= len(value)
}
