// Package app runs the gpgpdump command, in this process or as the built binary.
package app

import (
	"bytes"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/spiegel-im-spiegel/gocli/rwi"
	"github.com/spiegel-im-spiegel/gpgpdump/facade"
)

// Out is what one invocation gave.
type Out struct {
	Code   int
	Stdout []byte
	Stderr []byte
}

// Panicked says whether the command ended in a panic.
func (o Out) Panicked() bool {
	return bytes.HasPrefix(o.Stderr, []byte("Panic:")) || bytes.Contains(o.Stderr, []byte("\ngoroutine ")) || o.Code < 0
}

// Run runs the command in this process.
func Run(args []string, stdin io.Reader) Out {
	return RunTo(args, stdin, nil)
}

// RunTo is Run with a writer of the caller's in place of a buffer for standard output.
func RunTo(args []string, stdin io.Reader, stdout io.Writer) Out {
	if args == nil {
		args = []string{} // no arguments, as a program gets them
	}
	var so, se bytes.Buffer
	if stdout == nil {
		stdout = &so
	}
	code := facade.Execute(rwi.New(rwi.WithReader(stdin), rwi.WithWriter(stdout), rwi.WithErrorWriter(&se)), args)
	return Out{Code: int(code), Stdout: so.Bytes(), Stderr: se.Bytes()}
}

// Exec runs the built binary.
func Exec(bin string, args []string, stdin io.Reader, dir string, env ...string) (Out, error) {
	return ExecTo("", bin, args, stdin, dir, env...)
}

// ExecTo is Exec with standard output going to a device.
func ExecTo(dev, bin string, args []string, stdin io.Reader, dir string, env ...string) (Out, error) {
	c := exec.Command(bin, args...)
	c.Dir = dir
	for _, e := range os.Environ() {
		if !strings.Contains(strings.ToLower(strings.SplitN(e, "=", 2)[0]), "proxy") {
			c.Env = append(c.Env, e)
		}
	}
	c.Env = append(c.Env, env...)
	c.Stdin = stdin
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if dev != "" {
		f, err := os.OpenFile(dev, os.O_WRONLY, 0)
		if err != nil {
			return Out{}, err
		}
		defer f.Close()
		c.Stdout = f
	}
	c.WaitDelay = 30 * time.Second
	err := c.Run()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		return Out{}, err
	}
	return Out{Code: c.ProcessState.ExitCode(), Stdout: so.Bytes(), Stderr: se.Bytes()}, nil
}
