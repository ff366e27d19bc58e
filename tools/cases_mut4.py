# Broken variants of hand-written searches, cuts and counts: some check has to report each.
exec(open('/verif/tools/cases_ref4.py').read().split("WR='func WriteRedirect('")[0])
C=[]
SV,SC='server.go','scope.go'
def mut(name,expect,*edits): C.append((name,'mut',list(edits),expect))
PS='func ParseScope('
def ps(name,b,expect=['C26']): mut(name,expect,fn(SC,PS,'func ParseScope(str string) Scope {\n'+b+'}\n'))
ps('cut-no-tail','''	var res []string
	for {
		i := strings.IndexByte(str, ' ')
		if i < 0 {
			break
		}
		if item := strings.TrimSpace(str[:i]); item != "" {
			res = append(res, item)
		}
		str = str[i+1:]
	}
	return res
''')
ps('cut-skip-two','''	var res []string
	for len(str) > 0 {
		item, rest := str, ""
		if i := strings.Index(str, " "); i >= 0 && i+2 <= len(str) {
			item, rest = str[:i], str[i+2:]
		}
		if item = strings.TrimSpace(item); item != "" {
			res = append(res, item)
		}
		str = rest
	}
	return res
''')
ps('cut-other-sep','''	var res Scope
	for str != "" {
		var item string
		item, str, _ = strings.Cut(str, ",")
		item = strings.TrimSpace(item)
		if len(item) > 0 {
			res = append(res, item)
		}
	}
	return res
''')
ps('cut-break-early','''	var res Scope
	for {
		item, rest, more := strings.Cut(str, " ")
		if !more {
			return res
		}
		if item = strings.TrimSpace(item); item != "" {
			res = append(res, item)
		}
		str = rest
	}
''')
ps('cut-stop-empty','''	var res Scope
	for str != "" {
		var item string
		item, str, _ = strings.Cut(str, " ")
		item = strings.TrimSpace(item)
		if len(item) == 0 {
			break
		}
		res = append(res, item)
	}
	return res
''')
ps('cut-add-raw','''	var res Scope
	for more := true; more; {
		var item string
		item, str, more = strings.Cut(str, " ")
		if strings.TrimSpace(item) != "" {
			res = append(res, item)
		}
	}
	return res
''')
ps('bytes-no-tail','''	var res Scope
	start := 0
	for i := 0; i < len(str); i++ {
		if str[i] == ' ' {
			if item := strings.TrimSpace(str[start:i]); item != "" {
				res = append(res, item)
			}
			start = i + 1
		}
	}
	return res
''')
ps('bytes-keep-start','''	var res Scope
	start := 0
	for i := 0; i <= len(str); i++ {
		if i < len(str) && str[i] != ' ' {
			continue
		}
		if item := strings.TrimSpace(str[start:i]); item != "" {
			res = append(res, item)
			start = i + 1
		}
	}
	return res
''',['C26'])
ps('bytes-no-start','''	var res Scope
	start := 0
	for i := 0; i <= len(str); i++ {
		if i < len(str) && str[i] != ' ' {
			continue
		}
		if item := strings.TrimSpace(str[start:i]); item != "" {
			res = append(res, item)
		}
	}
	return res
''')
ps('bytes-short','''	var res Scope
	start := 0
	for i := 0; i < len(str)-1; i++ {
		if str[i] == ' ' {
			if item := strings.TrimSpace(str[start:i]); item != "" {
				res = append(res, item)
			}
			start = i + 1
		}
	}
	if item := strings.TrimSpace(str[start:]); item != "" {
		res = append(res, item)
	}
	return res
''')
ps('bytes-range','''	var res Scope
	start := 0
	for i := 0; i <= len(str); i++ {
		if str[i] != ' ' && i < len(str) {
			continue
		}
		if item := strings.TrimSpace(str[start:i]); item != "" {
			res = append(res, item)
		}
		start = i + 1
	}
	return res
''',['C27'])
ps('bytes-bounds','''	var res Scope
	start := 0
	for i := 0; i < len(str); i++ {
		if str[i] == ' ' {
			if item := strings.TrimSpace(str[start:i]); item != "" {
				res = append(res, item)
			}
			start = i + 2
		}
	}
	if item := strings.TrimSpace(str[start:]); item != "" {
		res = append(res, item)
	}
	return res
''',['C27'])
ps('runes-bounds','''	var res Scope
	start := 0
	for i, c := range str {
		if c == ' ' {
			if item := strings.TrimSpace(str[start:i]); item != "" {
				res = append(res, item)
			}
			start = i + 2
		}
	}
	if start > len(str) {
		start = len(str)
	}
	if item := strings.TrimSpace(str[start:]); item != "" {
		res = append(res, item)
	}
	return res
''',['C27'])
ps('index-ne-bound','''	list := strings.Split(str, " ")
	var res Scope
	for i := 0; i != len(list)+1; i++ {
		if item := strings.TrimSpace(list[i]); item != "" {
			res = append(res, item)
		}
	}
	return res
''',['C27'])
ps('index-step-two','''	list := strings.Split(str, " ")
	var res Scope
	for i := 0; i != len(list); i += 2 {
		if item := strings.TrimSpace(list[i]); item != "" {
			res = append(res, item)
		}
	}
	return res
''',['C27'])
I='func (s Scope) Includes('
def inc(name,b,expect=['C26']): mut(name,expect,fn(SC,I,'func (s Scope) Includes(scope Scope) bool {\n'+b+'}\n'))
inc('count-own','''	included := 0
	for _, name := range scope {
		if s.Contains(name) {
			included++
		}
	}
	return included == len(s)
''')
inc('count-some','''	included := 0
	for _, name := range scope {
		if s.Contains(name) {
			included++
		}
	}
	return included > 0
''')
inc('count-reverse','''	included := 0
	for _, name := range s {
		if scope.Contains(name) {
			included++
		}
	}
	return included == len(scope)
''')
inc('count-start','''	included := 1
	for _, name := range scope {
		if s.Contains(name) {
			included++
		}
	}
	return included >= len(scope)
''')
S='func (s *Server) ServeHTTP('
OLD='''	idx := strings.LastIndexByte(path, '/')
	if idx >= 0 {
		path = path[idx+1:]
	}
'''
def seg(name,new,expect=['C30']): mut(name,expect,sub(SV,S,(OLD,new)))
seg('scan-skip-last','''	idx := len(path) - 2
	for idx >= 0 && path[idx] != '/' {
		idx--
	}
	if idx >= 0 {
		path = path[idx+1:]
	}
''')
seg('scan-not-first','''	idx := len(path) - 1
	for idx > 0 && path[idx] != '/' {
		idx--
	}
	if idx >= 0 {
		path = path[idx+1:]
	}
''')
seg('scan-keep-slash','''	idx := len(path) - 1
	for idx >= 0 && path[idx] != '/' {
		idx--
	}
	if idx >= 0 {
		path = path[idx:]
	}
''')
seg('scan-forward','''	idx := 0
	for idx < len(path) && path[idx] != '/' {
		idx++
	}
	if idx < len(path) {
		path = path[idx+1:]
	}
''')
seg('scan-remember-first','''	idx := -1
	for i := 0; i < len(path); i++ {
		if path[i] == '/' && idx < 0 {
			idx = i
		}
	}
	if idx >= 0 {
		path = path[idx+1:]
	}
''')
seg('scan-remember-short','''	idx := -1
	for i := 0; i < len(path)-1; i++ {
		if path[i] == '/' {
			idx = i
		}
	}
	if idx >= 0 {
		path = path[idx+1:]
	}
''')
seg('scan-bounds','''	idx := len(path)
	for idx >= 0 && path[idx] != '/' {
		idx--
	}
	if idx >= 0 {
		path = path[idx+1:]
	}
''',['C27'])
