package main

// lemma is something the rules of other properties take for granted about
// functions that are not looked into there.
type lemma struct {
	what string
	rule func(j *J)
}

var (
	lemToken    = lemma{"that tokens parse exactly if they carry the full signature", ruleC18}
	lemBearer   = lemma{"that bearer tokens are read from a well-formed header only", ruleC28}
	lemGenerate = lemma{"that generated tokens are random in full length and signed", ruleC19}
	lemIncludes = lemma{"that a scope includes another exactly if it contains all its names", (*J).scopeIncludes}
	lemParse    = lemma{"that scopes are parsed into exactly their names", (*J).scopeParsed}
	lemText     = lemma{"that the text of a scope joins its names", (*J).scopeText}
	lemJSON     = lemma{"that the JSON form of a scope is its text", (*J).scopeJSON}
)

// lemmas lists what is decided again for a property because its statement
// depends on it. The others rely on C18, C19 and C26 being decided as well.
var lemmas = map[string][]lemma{
	"C01": {lemToken, lemBearer, lemIncludes},
	"C05": {lemIncludes, lemParse},
	"C11": {lemGenerate},
	"C21": {lemParse},
	"C22": {lemText, lemParse},
	"C23": {lemText, lemJSON},
	"C29": {lemIncludes},
}

// depend decides the lemmas of a property.
func (j *J) depend() {
	expl := j.expl
	for _, l := range lemmas[j.id] {
		l.rule(j)
		expl += "; as a lemma, " + l.what
	}
	j.expl = expl
}
