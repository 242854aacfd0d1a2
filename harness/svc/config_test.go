package svc

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	"github.com/vulpemventures/neutrino-elements/internal/config"
	"github.com/vulpemventures/neutrino-elements/verifharness/kit"
	"pgregory.net/rapid"
)

// the documented settings: key, default, whether it is a number
var settings = []struct {
	key, def string
	num      bool
}{
	{"NEUTRINOD_URL", "localhost:8000", false},
	{"EXPLORER_URL", "http://localhost:3001", false},
	{"PEER_URL", "localhost:18886", false},
	{"NETWORK", "regtest", false},
	{"LOG_LEVEL", "4", true},
	{"DB_USER", "root", false},
	{"DB_PASS", "secret", false},
	{"DB_HOST", "127.0.0.1", false},
	{"DB_PORT", "5432", true},
	{"DB_NAME", "neutrino-elements", false},
	{"DB_MIGRATION_PATH", "file://internal/infrastructure/storage/db/pg/migration", false},
}

func drawText(t *rapid.T, label string) string {
	s := rapid.OneOf(
		rapid.SampledFrom([]string{"x", "a b", " lead", "trail ", "true", "null", "0", "-1", "a=b", "localhost:9", "http://h:1/p?q=1", "{}", "\"q\"", "a,b", "é☃", "a'b", "$HOME", "%s%d", "\\n", "a\tb", "~/x", "1e3", "0x10"}),
		rapid.StringN(0, 20, 60),
	).Draw(t, label)
	return strings.ReplaceAll(s, "\x00", "")
}

// TestC55Env loads the daemon's configuration from generated environments, again and again in one process.
func TestC55Env(t *testing.T) {
	kit.Rule("C55Env", "environments setting any of the documented variables to any value, or not, loaded one after another; non-trivial when at least two variables are set")
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "NEUTRINO_ELEMENTS_") {
			k, _, _ := strings.Cut(e, "=")
			os.Unsetenv(k)
		}
	}
	kit.Checks(t, 3000, 60000, func(rt *rapid.T) {
		envs := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) map[string]string {
			m := map[string]string{}
			for _, s := range settings {
				if !rapid.Bool().Draw(t, s.key+"?") {
					continue
				}
				switch {
				case s.key == "NETWORK":
					m[s.key] = rapid.SampledFrom([]string{"liquid", "liquid", "testnet", "testnet", "regtest", "", "mainnet", "Liquid", " liquid", "nigiri", "liquid ", "bitcoin", "regtest,liquid", "REGTEST"}).Draw(t, "network")
				case s.key == "LOG_LEVEL":
					m[s.key] = fmt.Sprint(rapid.IntRange(0, 6).Draw(t, "level"))
				case s.num:
					m[s.key] = fmt.Sprint(rapid.IntRange(0, 65535).Draw(t, "num"))
				default:
					m[s.key] = drawText(t, s.key)
				}
			}
			return m
		}), 1, 3).Draw(rt, "envs")
		kit.Journal(envs)
		set := 0
		for _, env := range envs {
			for k, v := range env {
				os.Setenv("NEUTRINO_ELEMENTS_"+k, v)
				set++
			}
			err := config.LoadConfig()
			level := logrus.GetLevel()
			logrus.SetLevel(logrus.PanicLevel)
			logrus.SetOutput(io.Discard)
			for k := range env {
				os.Unsetenv("NEUTRINO_ELEMENTS_" + k)
			}
			// the values are read when they are asked for: put them back meanwhile
			for k, v := range env {
				os.Setenv("NEUTRINO_ELEMENTS_"+k, v)
			}
			network := env["NETWORK"]
			good := network == "" || network == "liquid" || network == "testnet" || network == "regtest"
			if (err == nil) != good {
				rt.Fatalf("network %q: LoadConfig returned %v", network, err)
			}
			if err == nil {
				for _, s := range settings {
					want := s.def
					if env[s.key] != "" {
						want = env[s.key]
					}
					if got := config.GetString(s.key); got != want {
						rt.Fatalf("%s is %q instead of %q (environment %q)", s.key, got, want, env)
					}
					if s.num {
						if got := fmt.Sprint(config.GetInt(s.key)); got != want {
							rt.Fatalf("%s is %s instead of %s (environment %q)", s.key, got, want, env)
						}
					}
					if s.key == "LOG_LEVEL" && fmt.Sprint(int(level)) != want {
						rt.Fatalf("the log level is %d instead of %s", level, want)
					}
				}
			}
			for k := range env {
				os.Unsetenv("NEUTRINO_ELEMENTS_" + k)
			}
		}
		kit.Case("C55Env", set >= 2, kit.Key(fmt.Sprintf("%q", envs)), func() any { return envs })
	})
}

// cliUser is a user that has nothing but its scratch directory.
const cliUser = 54321

// cli runs the command-line tool as that user.
type cli struct{ dir, home, bin string }

func newCli() *cli {
	src := os.Getenv("VERIF_BIN_NEUTRINO")
	if src == "" {
		panic("HARNESS-ERROR no command-line tool to run")
	}
	dir, err := os.MkdirTemp("/tmp", "verif-cli-")
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	b, err := os.ReadFile(src)
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, "neutrino"), b, 0o755)
	}
	if err == nil {
		err = os.Chmod(dir, 0o755)
	}
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	return &cli{dir: dir, bin: filepath.Join(dir, "neutrino")}
}

func (c *cli) fresh(n int) {
	if c.home != "" {
		os.RemoveAll(c.home)
	}
	c.home = filepath.Join(c.dir, fmt.Sprint("home", n))
	if err := os.Mkdir(c.home, 0o755); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	if err := os.Chown(c.home, cliUser, cliUser); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
}

func (c *cli) cmd(args ...string) *exec.Cmd {
	cmd := exec.Command(c.bin, args...)
	cmd.Dir = c.home
	cmd.Env = []string{"HOME=" + c.home, "USER=verif", "PATH=/nonexistent"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: cliUser, Gid: cliUser, NoSetGroups: true}}
	cmd.WaitDelay = patience
	return cmd
}

func (c *cli) run(args ...string) (stdout, stderr string, code int) {
	cmd := c.cmd(args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Start()
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	timer := time.AfterFunc(patience, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	timer.Stop()
	var x *exec.ExitError
	if err != nil && !errors.As(err, &x) {
		panic("HARNESS-ERROR " + err.Error())
	}
	return o.String(), e.String(), cmd.ProcessState.ExitCode()
}

type cliOp struct {
	Kind       string
	Url, Path  string
	HasU, HasP bool
	Key, Value string
}

// TestC55Cli gives the command-line tool sequences of commands.
func TestC55Cli(t *testing.T) {
	kit.Rule("C55Cli", "sequences of config, config set and config print commands, valid or not, from an empty home directory; non-trivial when some key was given two different values")
	c := newCli()
	defer os.RemoveAll(c.dir)
	n := 0
	kit.Checks(t, 120, 3000, func(rt *rapid.T) {
		ops := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) cliOp {
			op := cliOp{Kind: rapid.SampledFrom([]string{"config", "set", "set", "set", "set", "print", "print", "keyonly", "nothing"}).Draw(t, "op")}
			switch op.Kind {
			case "config":
				if op.HasU = rapid.Bool().Draw(t, "url?"); op.HasU {
					op.Url = drawText(t, "url")
				}
				if op.HasP = rapid.Bool().Draw(t, "path?"); op.HasP {
					op.Path = drawText(t, "path")
				}
			case "set", "keyonly":
				op.Key = rapid.SampledFrom([]string{"url", "path", "url", "path", "other", "Url", "a b", "é", "key:", ""}).Draw(t, "key")
				op.Value = drawText(t, "value")
			}
			return op
		}), 1, 8).Draw(rt, "ops")
		kit.Journal(ops)
		n++
		c.fresh(n)
		state := map[string]string{}
		exists, changed := false, false
		set := func(k, v string) {
			if old, ok := state[k]; ok && old != v {
				changed = true
			}
			state[k], exists = v, true
		}
		var printed func(what string)
		printed = func(what string) {
			out, errs, code := c.run("config", "print")
			if !exists {
				if code == 0 && strings.TrimSpace(out) != "" {
					rt.Fatalf("%s: nothing is stored but %q is printed", what, out)
				}
				return
			}
			if code != 0 {
				rt.Fatalf("%s: config print failed: %s", what, errs)
			}
			var want []string
			for k, v := range state {
				want = append(want, strings.Split(k+": "+v, "\n")...)
			}
			got := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
			if len(state) == 0 {
				want = []string{""}
			}
			sort.Strings(want)
			sort.Strings(got)
			if strings.Join(want, "\n") != strings.Join(got, "\n") {
				rt.Fatalf("%s: %q is printed instead of %q", what, got, want)
			}
		}
		for i, op := range ops {
			what := fmt.Sprintf("after %d commands (%+v)", i+1, op)
			switch op.Kind {
			case "config":
				args := []string{"config"}
				u, p := "localhost:8000", "/neutrino/subscribe/ws"
				if op.HasU {
					args = append(args, "--url="+op.Url)
					u = op.Url
				}
				if op.HasP {
					args = append(args, "--path", op.Path)
					p = op.Path
				}
				if _, errs, code := c.run(args...); code != 0 {
					rt.Fatalf("%s: %q failed: %s", what, args, errs)
				}
				set("url", u)
				set("path", p)
			case "set":
				out, errs, code := c.run("config", "set", op.Key, op.Value)
				if code != 0 {
					rt.Fatalf("%s: failed: %s", what, errs)
				}
				if !strings.Contains(out, op.Key) || !strings.Contains(out, op.Value) {
					rt.Fatalf("%s: the output %q does not tell what was set", what, out)
				}
				set(op.Key, op.Value)
			case "keyonly":
				if _, _, code := c.run("config", "set", op.Key); code == 0 {
					rt.Fatalf("%s: a key without a value was accepted", what)
				}
			case "nothing":
				if _, _, code := c.run("config", "set"); code == 0 {
					rt.Fatalf("%s: setting nothing was accepted", what)
				}
			case "print":
				printed(what)
			}
		}
		printed("at the end")
		if exists {
			files, _ := filepath.Glob(filepath.Join(c.home, ".neutrino", "*"))
			found := false
			for _, f := range files {
				b, err := os.ReadFile(f)
				m := map[string]string{}
				if err == nil && json.Unmarshal(b, &m) == nil && fmt.Sprint(m) == fmt.Sprint(state) {
					found = true
				}
			}
			if !found {
				rt.Fatalf("the stored settings (%v) are not %v", files, state)
			}
		}
		kit.Case("C55Cli", changed, kit.Key(fmt.Sprintf("%+v", ops)), func() any { return ops })
	})
}
