package liner

import (
	"errors"
	"io"
	"strings"

	"github.com/innerr/ticat/zsim/shim/os"
)

var (
	ErrPromptAborted    = errors.New("prompt aborted")
	ErrNotTerminalOutput = errors.New("standard output is not a terminal")
	ErrInvalidPrompt    = errors.New("invalid prompt")
	ErrInternal         = errors.New("liner: internal error")
)

type TabStyle int

const (
	TabCircular TabStyle = iota
	TabPrints
)

type Completer func(line string) []string
type WordCompleter func(line string, pos int) (head string, completions []string, tail string)

type State struct {
	hist []string
}

func NewLiner() *State                            { return &State{} }
func (s *State) Close() error                     { return nil }
func (s *State) SetCtrlCAborts(bool)              {}
func (s *State) SetMultiLineMode(bool)            {}
func (s *State) SetBeep(bool)                     {}
func (s *State) SetTabCompletionStyle(TabStyle)   {}
func (s *State) SetCompleter(Completer)           {}
func (s *State) SetWordCompleter(WordCompleter)   {}
func (s *State) AppendHistory(l string)           { s.hist = append(s.hist, l) }
func (s *State) ReadHistory(r io.Reader) (int, error) {
	b, err := io.ReadAll(r)
	for _, l := range strings.Split(string(b), "\n") {
		if l != "" {
			s.hist = append(s.hist, l)
		}
	}
	return len(s.hist), err
}
func (s *State) WriteHistory(w io.Writer) (int, error) {
	n := 0
	for _, l := range s.hist {
		if _, err := io.WriteString(w, l+"\n"); err != nil {
			return n, err
		}
		n++
	}
	return n, nil
}

// Prompt reads a line; the byte 3 is ctrl-c.
func (s *State) Prompt(p string) (string, error) {
	io.WriteString(os.GetStdout(), p)
	var line []byte
	b := make([]byte, 1)
	for {
		n, err := os.GetStdin().Read(b)
		if n == 1 {
			if b[0] == 3 {
				return "", ErrPromptAborted
			}
			if b[0] == '\n' {
				return string(line), nil
			}
			line = append(line, b[0])
			continue
		}
		if err != nil {
			if len(line) > 0 {
				return string(line), nil
			}
			return "", io.EOF
		}
	}
}
func (s *State) PasswordPrompt(p string) (string, error) { return s.Prompt(p) }
