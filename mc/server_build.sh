#!/bin/bash
# server_build.sh DIR: builds DIR/server from /repo's cmd/server, with stand-ins for the admin
# UI and a copy of badger that writes down how it is used.
set -e
t=$1
cd "$(dirname "$0")"
b=$(go list -m -f '{{.Dir}}' github.com/dgraph-io/badger/v4)
mkdir -p "$t/badger"
cp -r "$b/." "$t/badger/" && chmod -R u+w "$t/badger"
find "$t/badger" -name '*_test.go' -delete
cat >"$t/badger/verif_hook.go" <<'G'
package badger

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"sync/atomic"
	"syscall"
)

var verifN, verifAt = int64(0), func() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_KILL_AT"), 10, 64); return n }()
var verifFile = os.Getenv("VERIF_KILL_COUNT")

// verifPoint is a moment of a write to the storage at which the process may be killed.
func verifPoint() {
	if verifFile == "" {
		return
	}
	n := atomic.AddInt64(&verifN, 1)
	if n == verifAt {
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
		select {}
	}
	os.WriteFile(verifFile, []byte(strconv.FormatInt(n, 10)), 0o644)
}

func verifOpened(o Options) {
	p := os.Getenv("VERIF_BADGER_OPTIONS")
	if p == "" {
		return
	}
	m := map[string]string{}
	v := reflect.ValueOf(o)
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() || f.Name == "Logger" {
			continue
		}
		switch f.Type.Kind() {
		case reflect.Slice, reflect.Func, reflect.Interface, reflect.Ptr, reflect.Map:
		default:
			m[f.Name] = fmt.Sprint(v.Field(i).Interface())
		}
	}
	b, _ := json.Marshal(m)
	os.WriteFile(p, b, 0o644)
	if os.Getenv("VERIF_BADGER_EXIT") != "" {
		os.Exit(0)
	}
}

func verifGC(ratio float64) {
	if p := os.Getenv("VERIF_BADGER_GC"); p != "" {
		if f, err := os.OpenFile(p, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644); err == nil {
			fmt.Fprintln(f, ratio)
			f.Close()
		}
	}
}
G
sed -i 's/^func Open(opt Options) (\*DB, error) {/&\n\tverifOpened(opt)/; s/^func (db \*DB) RunValueLogGC(discardRatio float64) error {/&\n\tverifGC(discardRatio)/' "$t/badger/db.go"
sed -i '/^func (db \*DB) writeToLSM/,/^}/s/^\tfor i, entry := range b.Entries {/&\n\t\tverifPoint()/; /^func (db \*DB) writeRequests/,/^}/{s/^\tdb.opt.Debugf("writeRequests called.*/\tverifPoint()\n&/; s/^\tdone(nil)/\tverifPoint()\n&/}' "$t/badger/db.go"
[ "$(grep -c 'verifPoint()' "$t/badger/db.go")" = 3 ]
grep -q verifOpened "$t/badger/db.go" && grep -q verifGC "$t/badger/db.go"
echo '<html></html>' >"$t/index.html"
echo '// nothing' >"$t/a.js"
echo "{\"Replace\":{\"/repo/cmd/server/index.html\":\"$t/index.html\",\"/repo/cmd/server/assets/a.js\":\"$t/a.js\"}}" >"$t/server-overlay.json"
cp go.mod go.sum "$t/"
echo "replace github.com/dgraph-io/badger/v4 => $t/badger" >>"$t/go.mod"
go build -overlay "$t/server-overlay.json" -modfile "$t/go.mod" -o "$t/server" github.com/kgantsov/doq/cmd/server
