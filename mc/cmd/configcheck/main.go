package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/kgantsov/doq/pkg/config"
	"github.com/spf13/cobra"
	"github.com/spf13/viper"

	"vmc/core"
)

// C26: every option, every subset of sources, singly and in pairs (triples), resolved by the
// real code; and the real server process started with every option from every source.

var checks = map[string]func(c *core.Ctx, pool *core.Pool){}

func main() { core.Main(checks) }

type opt struct {
	key  string
	def  string // as given on a command line
	vals []string
	get  func(c *config.Config) any
	str  bool // text: quoted in files
}

func vals(s string) []string { return strings.Split(s, "|") }

var opts = []opt{
	{"profiling.enabled", "false", vals("true"), func(c *config.Config) any { return c.Profiling.Enabled }, false},
	{"profiling.port", "6060", vals("6061|1|65535"), func(c *config.Config) any { return c.Profiling.Port }, false},
	{"prometheus.enabled", "false", vals("true"), func(c *config.Config) any { return c.Prometheus.Enabled }, false},
	{"logging.level", "warning", vals("debug|error|info"), func(c *config.Config) any { return c.Logging.LogLevel }, true},
	{"http.port", "8000", vals("8001|80|08080"), func(c *config.Config) any { return c.Http.Port }, true},
	{"grpc.address", "", vals("localhost:10001|:10002|[::1]:3"), func(c *config.Config) any { return c.Grpc.Address }, true},
	{"raft.address", "localhost:9000", vals("localhost:9001|10.0.0.1:12000|a.b:1"), func(c *config.Config) any { return c.Raft.Address }, true},
	{"storage.data_dir", "data", vals("/var/lib/doq|a b/c|x=y,z"), func(c *config.Config) any { return c.Storage.DataDir }, true},
	{"storage.gc_interval", "300", vals("1|0|9000000000"), func(c *config.Config) any { return c.Storage.GCInterval }, false},
	{"storage.gc_discard_ratio", "0.7", vals("0.25|0|1"), func(c *config.Config) any { return c.Storage.GCDiscardRatio }, false},
	{"storage.compression", "", vals("none|snappy|zstd"), func(c *config.Config) any { return c.Storage.Compression }, true},
	{"storage.zstd_compression_level", "0", vals("3|1|19"), func(c *config.Config) any { return c.Storage.ZSTDCompressionLevel }, false},
	{"storage.block_cache_size", "0", vals("268435456|1|9000000000"), func(c *config.Config) any { return c.Storage.BlockCacheSize }, false},
	{"storage.index_cache_size", "0", vals("134217728|2|9000000001"), func(c *config.Config) any { return c.Storage.IndexCacheSize }, false},
	{"storage.base_table_size", "0", vals("2097152|3|9000000002"), func(c *config.Config) any { return c.Storage.BaseTableSize }, false},
	{"storage.num_compactors", "0", vals("4|2|7"), func(c *config.Config) any { return c.Storage.NumCompactors }, false},
	{"storage.num_level_zero_tables", "0", vals("5|9|8"), func(c *config.Config) any { return c.Storage.NumLevelZeroTables }, false},
	{"storage.num_level_zero_tables_stall", "0", vals("15|11|12"), func(c *config.Config) any { return c.Storage.NumLevelZeroTablesStall }, false},
	{"storage.num_memtables", "0", vals("3|6|13"), func(c *config.Config) any { return c.Storage.NumMemtables }, false},
	{"storage.value_log_file_size", "0", vals("67108864|4|9000000003"), func(c *config.Config) any { return c.Storage.ValueLogFileSize }, false},
	{"cluster.node_id", "node-1", vals("node-2|7|doq-1.x:8000"), func(c *config.Config) any { return c.Cluster.NodeID }, true},
	{"cluster.service_name", "", vals("doq|a-b|x"), func(c *config.Config) any { return c.Cluster.ServiceName }, true},
	{"cluster.join_addr", "", vals("localhost:8001|h:1|10.0.0.1:80"), func(c *config.Config) any { return c.Cluster.JoinAddr }, true},
	{"queue.acknowledgement_check_interval", "1", vals("2|60|9000000000"), func(c *config.Config) any { return c.Queue.AcknowledgementCheckInterval }, false},
	{"queue.acknowledgement_timeout", "60", vals("1|600|9000000000"), func(c *config.Config) any { return c.Queue.AcknowledgementTimeout }, false},
	{"queue.stats.window_side", "10", vals("1|60|100"), func(c *config.Config) any { return c.Queue.QueueStats.WindowSide }, false},
}

// given is one option from one source.
type given struct {
	opt   int
	src   string // flag, env, file (the default one), named (on the command line)
	val   string
	apart bool // --k v instead of --k=v
}

func tree(gs []given) map[string]any {
	m := map[string]any{}
	for _, g := range gs {
		o := opts[g.opt]
		at := m
		ps := strings.Split(o.key, ".")
		for _, p := range ps[:len(ps)-1] {
			if at[p] == nil {
				at[p] = map[string]any{}
			}
			at = at[p].(map[string]any)
		}
		if o.str {
			at[ps[len(ps)-1]] = g.val
		} else {
			at[ps[len(ps)-1]] = json.RawMessage(g.val)
		}
	}
	return m
}

func yaml(m map[string]any, ind string) string {
	var sb strings.Builder
	for k, v := range m {
		switch v := v.(type) {
		case map[string]any:
			fmt.Fprintf(&sb, "%s%s:\n%s", ind, k, yaml(v, ind+"  "))
		default:
			b, _ := json.Marshal(v)
			fmt.Fprintf(&sb, "%s%s: %s\n", ind, k, b)
		}
	}
	return sb.String()
}

// setup writes the files and returns the arguments and the environment.
func setup(dir string, gs []given, named, form string) (args []string, env []string) {
	by := map[string][]given{}
	for _, g := range gs {
		by[g.src] = append(by[g.src], g)
		o := opts[g.opt]
		switch {
		case g.src == "flag" && g.apart && o.key != "profiling.enabled": // a boolean flag takes its value only with =
			args = append(args, "--"+o.key, g.val)
		case g.src == "flag":
			args = append(args, "--"+o.key+"="+g.val)
		case g.src == "env":
			env = append(env, strings.ToUpper(o.key)+"="+g.val)
		}
	}
	os.Remove(filepath.Join(dir, "config.yaml"))
	if l := by["file"]; l != nil {
		must(os.WriteFile(filepath.Join(dir, "config.yaml"), []byte(yaml(tree(l), "")), 0o644))
	}
	if l := by["named"]; l != nil {
		p := filepath.Join(dir, named)
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		b := []byte(yaml(tree(l), ""))
		if strings.HasSuffix(named, ".json") {
			b, _ = json.Marshal(tree(l))
		}
		must(os.WriteFile(p, b, 0o644))
		if form == "=" {
			args = append(args, "--config="+named)
		} else {
			args = append([]string{"--config", named}, args...)
		}
	}
	return
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

var scratch string

func enter() string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "vcfg")
		must(err)
		scratch = d
		must(os.Chdir(d))
	}
	return scratch
}

func leave() {
	if scratch != "" {
		os.Chdir("/")
		os.RemoveAll(scratch)
		scratch = ""
	}
}

// resolve runs the real code as the server's main function does.
func resolve(args, env []string) (cfg *config.Config, err error) {
	for _, e := range env {
		k, v, _ := strings.Cut(e, "=")
		os.Setenv(k, v)
		defer os.Unsetenv(k)
	}
	config.InitCobraCommand(nil) // forgets the last command line, as a new process would
	viper.Reset()
	ran := false
	cmd := config.InitCobraCommand(func(cmd *cobra.Command, args []string) {
		ran = true
		cfg, err = config.LoadConfig()
	})
	cmd.SetArgs(append([]string{}, args...))
	cmd.SilenceErrors, cmd.SilenceUsage = true, true
	if e := cmd.Execute(); e != nil {
		return nil, e
	}
	if !ran {
		return nil, fmt.Errorf("the command does not run")
	}
	return
}

var prio = []string{"flag", "env", "named", "file"}

// want is the value of option i.
func want(gs []given, i int) (string, string) {
	for _, p := range prio {
		for _, g := range gs {
			if g.opt == i && g.src == p {
				return g.val, p
			}
		}
	}
	return opts[i].def, "default"
}

func same(got any, want string) bool {
	switch g := got.(type) {
	case string:
		return g == want
	case bool:
		return fmt.Sprint(g) == want
	case float64:
		var f float64
		fmt.Sscan(want, &f)
		return g == f
	default:
		return fmt.Sprint(g) == want
	}
}

func judge(gs []given, named, form string) *core.ItemFail {
	dir := enter()
	args, env := setup(dir, gs, named, form)
	cfg, err := resolve(args, env)
	desc := describe(gs, args, env)
	if err != nil {
		return &core.ItemFail{Sig: "refused", What: fmt.Sprintf("settings are refused: %v", err), Log: desc}
	}
	for i, o := range opts {
		w, from := want(gs, i)
		if !same(o.get(cfg), w) {
			sig := "changed-other:" + o.key
			for _, g := range gs {
				if g.opt == i {
					sig = "setting:" + o.key + ":" + from
				}
			}
			return &core.ItemFail{Sig: sig, What: fmt.Sprintf("%s is %v, must be %q from its %s", o.key, o.get(cfg), w, from), Log: desc}
		}
	}
	return nil
}

func describe(gs []given, args, env []string) (out []string) {
	out = append(out, fmt.Sprintf("command line %q, environment %q", args, env))
	for _, g := range gs {
		if g.src == "file" || g.src == "named" {
			out = append(out, fmt.Sprintf("%s: %s = %q", core.If(g.src == "file", "./config.yaml", "file named on the command line"), opts[g.opt].key, g.val))
		}
	}
	return
}

var namedFiles = []string{"other.yaml", "sub/doq.json"}

// single: one option from every subset of sources, each with another value or the default.
func single(ch *core.Choices, i int) *core.ItemFail {
	o := opts[i]
	var gs []given
	for k, src := range []string{"flag", "env", "file", "named"} {
		v := ch.Pick(3)
		if v == 0 {
			continue
		}
		val := o.vals[k%len(o.vals)]
		if v == 2 {
			val = o.def
		}
		if src == "env" && val == "" {
			return nil // an empty variable counts as none
		}
		g := given{opt: i, src: src, val: val}
		if src == "flag" {
			g.apart = ch.Pick(2) == 1
		}
		gs = append(gs, g)
	}
	return judge(gs, namedFiles[ch.Pick(2)], []string{"=", " "}[ch.Pick(2)])
}

var sources = []string{"flag", "env", "file", "named"}

// together: several options, each from one source with one value.
func together(ch *core.Choices, is []int) *core.ItemFail {
	var gs []given
	file, named := false, false
	for k, i := range is {
		src := sources[ch.Pick(4)]
		file, named = file || src == "file", named || src == "named"
		v := (k + i) % len(opts[i].vals)
		gs = append(gs, given{opt: i, src: src, val: opts[i].vals[v], apart: k%2 == 1})
	}
	if file && named {
		return nil // the named file takes the place of the default one
	}
	return judge(gs, namedFiles[is[0]%2], "=")
}

func init() {
	core.RegisterItems("C26", func(th bool) (its []core.Item) {
		add := func(name string, f func(ch *core.Choices) *core.ItemFail) {
			its = append(its, core.Item{Name: name, Run: func(r *core.ItemRun) {
				defer leave()
				core.Enumerate(r, f)
			}})
		}
		for i, o := range opts {
			add("one option: "+o.key, func(ch *core.Choices) *core.ItemFail { return single(ch, i) })
		}
		for i := range opts {
			add("pairs with "+opts[i].key, func(ch *core.Choices) *core.ItemFail {
				if i+1 == len(opts) {
					return judge(nil, "", "")
				}
				j := i + 1 + ch.Pick(len(opts)-i-1)
				if th && j+1 < len(opts) {
					if k := ch.Pick(len(opts) - j); k > 0 {
						return together(ch, []int{i, j, j + k})
					}
				}
				return together(ch, []int{i, j})
			})
		}
		add("everything at once", func(ch *core.Choices) *core.ItemFail {
			src := sources[ch.Pick(4)]
			low := ch.Pick(5) // and another source below
			n := ch.Pick(3)
			var gs []given
			for i, o := range opts {
				gs = append(gs, given{opt: i, src: src, val: o.vals[n%len(o.vals)]})
				if low < 4 && sources[low] != src {
					gs = append(gs, given{opt: i, src: sources[low], val: o.vals[(n+1)%len(o.vals)]})
				}
			}
			return judge(gs, namedFiles[ch.Pick(2)], []string{"=", " "}[ch.Pick(2)])
		})
		add("a named file that cannot be read", func(ch *core.Choices) *core.ItemFail {
			dir := enter()
			name := "missing.yaml"
			if ch.Pick(2) == 1 {
				name = "broken.yaml"
				must(os.WriteFile(filepath.Join(dir, name), []byte("http: [\n: {"), 0o644))
			}
			args, _ := setup(dir, []given{{opt: 4, src: "flag", val: "8123"}}, "", "")
			if cfg, err := resolve(append(args, "--config", name), nil); err == nil {
				return &core.ItemFail{Sig: "unreadable-file", What: fmt.Sprintf("--config %s is accepted: %+v", name, *cfg)}
			}
			return nil
		})
		its = append(its, serverItems(th)...)
		return
	})
	checks["C26"] = func(c *core.Ctx, pool *core.Pool) {
		c.Assumptions = []string{"a variable is named after its option in upper case with the dots kept, as the code looks it up; an empty variable counts as none",
			"a file named on the command line takes the place of the default file",
			"the server process runs with a stand-in for the admin UI's files, which are not in the repository, and with a copy of the badger module that also writes down the options it is opened with"}
		c.Coverage["bounds"] = map[string]any{"options": len(opts), "sources": sources, "options_together": core.If(c.Thorough(), 3, 2)}
		core.RunItems(c, pool)
	}
}
