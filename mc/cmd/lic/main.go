// Command lic runs GetInfo of a build with license detection. It reads JSON
// arguments from standard input and writes JSON results.
package main

import (
	"bytes"
	"encoding/json"
	"io"
	"os"

	"verif/mc/licproto"

	"github.com/pinpt/ripsrc/ripsrc/fileinfo"
)

func main() {
	d := json.NewDecoder(os.Stdin)
	e := json.NewEncoder(os.Stdout)
	p := fileinfo.New()
	for {
		var q licproto.Query
		err := d.Decode(&q)
		if err == io.EOF {
			return
		}
		if err != nil {
			panic(err)
		}
		if q.Fresh {
			p = fileinfo.New()
		}
		info, skip := p.GetInfo(fileinfo.InfoArgs{FilePath: q.Path, Content: q.Content, Lines: bytes.Split(q.Content, []byte("\n"))})
		r := licproto.Result{Language: info.Language, Skip: skip}
		if info.License != nil {
			r.License, r.Confidence = info.License.Name, info.License.Confidence
		}
		e.Encode(r)
	}
}
