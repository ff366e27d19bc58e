// Command mutate lists small changes of the module's source as JSON lines.
package main

import (
	"encoding/json"
	"flag"
	"os"

	"verif/lint/mutate/list"
)

func main() {
	dir := flag.String("dir", "/repo", "module")
	flag.Parse()
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, e := range list.Edits(*dir) {
		enc.Encode(e)
	}
}
