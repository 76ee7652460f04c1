package checks

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// gitEnv runs the installed git inside a scratch directory of its own.
type gitEnv struct {
	dir  string
	path string
}

// newGit makes a scratch directory; ok is false if git is not available.
func newGit() (g *gitEnv, ok bool) {
	path, err := exec.LookPath("git")
	if err != nil {
		return nil, false
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "verif-git.")
	if err != nil {
		return nil, false
	}
	g = &gitEnv{dir: dir, path: path}
	if _, err := g.run(nil, "--version"); err != nil {
		g.close()
		return nil, false
	}
	return g, true
}

func (g *gitEnv) close() {
	if g != nil && g.dir != "" {
		os.RemoveAll(g.dir)
	}
}

func (g *gitEnv) sub(name string) string {
	d := filepath.Join(g.dir, name)
	os.MkdirAll(d, 0o755)
	return d
}

// in returns the same environment with another working directory.
func (g *gitEnv) in(dir string) *gitEnv { return &gitEnv{dir: dir, path: g.path} }

func (g *gitEnv) cmd(args ...string) *exec.Cmd {
	c := exec.Command(g.path, args...)
	c.Dir = g.dir
	c.Env = []string{
		"PATH=" + os.Getenv("PATH"), "HOME=" + g.dir, "XDG_CONFIG_HOME=" + g.dir, "LC_ALL=C", "TZ=UTC", "TERM=dumb",
		"GIT_CONFIG_NOSYSTEM=1", "GIT_CONFIG_GLOBAL=/dev/null", "GIT_CEILING_DIRECTORIES=" + filepath.Dir(g.dir),
		"GIT_PAGER=cat", "GIT_TERMINAL_PROMPT=0", "GIT_OPTIONAL_LOCKS=0",
	}
	return c
}

func (g *gitEnv) run(stdin []byte, args ...string) (string, error) {
	c := g.cmd(args...)
	c.Stdin = bytes.NewReader(stdin)
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	if err := c.Run(); err != nil {
		return out.String(), fmt.Errorf("git %s: %v: %s", strings.Join(args, " "), err, clip(errb.String()))
	}
	return out.String(), nil
}

// must runs git where failure means that the harness is at fault.
func (g *gitEnv) must(stdin []byte, args ...string) string {
	out, err := g.run(stdin, args...)
	if err != nil {
		panic("engine: " + err.Error())
	}
	return out
}

func readFile(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		panic("engine: " + err.Error())
	}
	return string(b)
}
