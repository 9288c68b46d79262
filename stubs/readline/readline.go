// Package readline stands in for github.com/chzyer/readline: it hands the lines of the standard input over as they are
// and tells, with a zero byte, when the next line is waited for. Line editing is no business of the checks.
package readline

import (
	"bufio"
	"io"
	"os"
	"strings"
)

type Config struct{ Prompt string }

type Instance struct{ in *bufio.Reader }

func New(_ string) (*Instance, error) { return &Instance{bufio.NewReaderSize(os.Stdin, 1<<16)}, nil }

func NewEx(_ *Config) (*Instance, error) { return New("") }

func (i *Instance) Readline() (string, error) {
	if _, err := os.Stdout.Write([]byte{0}); err != nil {
		return "", err
	}

	line, err := i.in.ReadString('\n')
	if err != nil && line == "" {
		return "", io.EOF
	}

	return strings.TrimSuffix(line, "\n"), nil
}

func (i *Instance) SetPrompt(_ string) {}

func (i *Instance) Close() error { return nil }
