// Package bb runs the tools built from the repository as black boxes.
package bb

import (
	"bytes"
	"context"
	"errors"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
)

// Res is what a run showed.
type Res struct {
	Code     int // exit status; -1 if killed by a signal
	Out, Err string
	TimedOut bool
}

// Crashed is true if the tool died of a panic or a signal.
func (r Res) Crashed() bool {
	return r.Code == -1 || r.Code == 2 && (strings.Contains(r.Err, "panic:") || strings.Contains(r.Err, "fatal error:") || strings.Contains(r.Err, "goroutine "))
}

// Nobody is a user that owns nothing but what it is given.
const Nobody = 61234

// Own hands a tree to Nobody.
func Own(r *mc.R, dir string) {
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil {
			err = os.Lchown(p, Nobody, Nobody)
		}
		if err != nil {
			r.Broken("%v", err)
		}
		return nil
	})
}

// AsNobody makes a command run as that user.
func AsNobody(cmd *exec.Cmd) {
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: Nobody, Gid: Nobody}}
}

// Run runs tool (a name in the tools directory, or an absolute path) with stdin and args in dir.
func Run(r *mc.R, dir, stdin, tool string, args ...string) Res {
	return RunEnv(r, dir, nil, strings.NewReader(stdin), tool, args...)
}

// Unprivileged makes all tools run as Nobody, to whom the directory they run in is handed over.
var Unprivileged bool

// RunEnv is Run with extra environment.
func RunEnv(r *mc.R, dir string, env []string, stdin io.Reader, tool string, args ...string) Res {
	if !filepath.IsAbs(tool) {
		tool = filepath.Join(r.Bin, tool)
	}
	if dir == "" {
		dir = r.Work
	}
	for attempt := 0; ; attempt++ {
		ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
		cmd := exec.CommandContext(ctx, tool, args...)
		cmd.Dir = dir
		if Unprivileged {
			if dir != r.Work {
				Own(r, dir)
			}
			AsNobody(cmd)
		}
		cmd.Stdin = stdin
		cmd.Env = append(append(os.Environ(), "TZ=", "GOTRACEBACK=single"), env...)
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		err := cmd.Run()
		timedOut := ctx.Err() != nil
		cancel()
		res := Res{Out: out.String(), Err: errb.String(), TimedOut: timedOut}
		var ee *exec.ExitError
		switch {
		case err == nil:
		case errors.As(err, &ee):
			res.Code = ee.ExitCode()
		default:
			if _, isBuf := stdin.(*strings.Reader); attempt < 3 && isBuf {
				_, _ = stdin.(*strings.Reader).Seek(0, io.SeekStart)
				time.Sleep(200 * time.Millisecond)
				continue
			}
			r.Broken("running %s: %v", tool, err)
			res.Code = -2
		}
		return res
	}
}
