C=[]
def r(name,*edits): C.append((name,'ref',list(edits),[]))
W='''	err := json.NewEncoder(w).Encode(obj)
'''
r('w-bufio',('oauth2.go',W,'''	bw := bufio.NewWriter(w)
	err := json.NewEncoder(bw).Encode(obj)
	if err != nil {
		return err
	}
	err = bw.Flush()
'''))
r('w-buffer-writeto',('oauth2.go',W,'''	var buf bytes.Buffer
	err := json.NewEncoder(&buf).Encode(obj)
	if err != nil {
		return err
	}
	_, err = buf.WriteTo(w)
'''))
r('w-buffer-bytes',('oauth2.go',W,'''	buf := new(bytes.Buffer)
	err := json.NewEncoder(buf).Encode(obj)
	if err != nil {
		return err
	}
	_, err = w.Write(buf.Bytes())
'''))
r('w-buffer-string',('oauth2.go',W,'''	buf := &strings.Builder{}
	enc := json.NewEncoder(buf)
	err := enc.Encode(obj)
	if err == nil {
		_, err = io.WriteString(w, buf.String())
	}
'''))
r('w-copy',('oauth2.go',W,'''	var buf bytes.Buffer
	err := json.NewEncoder(&buf).Encode(obj)
	if err == nil {
		_, err = io.Copy(w, &buf)
	}
'''))
r('w-marshal',('oauth2.go',W,'''	data, err := json.Marshal(obj)
	if err == nil {
		_, err = w.Write(append(data, '\\n'))
	}
'''))
r('w-marshal-fprintf',('oauth2.go',W,'''	data, err := json.Marshal(obj)
	if err == nil {
		_, err = fmt.Fprintf(w, "%s\\n", data)
	}
'''))
