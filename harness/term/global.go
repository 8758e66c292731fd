package term

import (
	"bytes"

	"github.com/chzyer/readline"

	"verif/harness/vrt"
	"verif/harness/vsys"
)

// tab is a completer with one candidate.
type tab string

func (t tab) Do(line []rune, pos int) ([][]rune, int) { return [][]rune{[]rune(t)}, 0 }

// globals is what the functions of the package, without an instance, should act on.
type globals struct {
	hist   []string // known entries, oldest first
	path   string
	files  map[string][]string
	comp   string
	prompt int
}

// add puts an entry where history entries go.
func (g *globals) add(e string) {
	if e == "" || len(g.hist) > 0 && g.hist[len(g.hist)-1] == e {
		return
	}
	g.hist = append(g.hist, e)
	if g.path != "" {
		g.files[g.path] = append(g.files[g.path], e)
	}
}

// ask runs one of the reading functions: what it shows before the first key, what it returns.
func ask(f func() (string, error), keys ...string) (shown []byte, line string, err error) {
	from := len(vsys.OsStdout.Out)
	done := make(chan int, 1)
	go func() {
		line, err = f()
		done <- 1
	}()
	vrt.Settle()
	shown = append([]byte{}, vsys.OsStdout.Out[from:]...)
	for _, k := range keys {
		vsys.OsStdin.In <- []byte(k)
		vrt.Settle()
	}
	<-done
	return
}

func global(g *globals) {
	switch vrt.Choose("call", 6) {
	case 0: // a line
		g.prompt++
		prompt := string(rune('a'+g.prompt)) + "? "
		line := func() (string, error) { return readline.Line(prompt) }
		c := string(vrt.Rune("c", 33, 126))
		var shown []byte
		var got, want string
		var err error
		switch vrt.Choose("line", 4) {
		case 0:
			want = c + c
			shown, got, err = ask(line, c, c, "\r")
		case 1:
			keys := []string{c}
			if n := vrt.Choose("back", len(g.hist)+1); n == 0 {
				want = c
			} else {
				want = g.hist[len(g.hist)-n]
				for ; n > 0; n-- {
					keys = append(keys, "\x10")
				}
			}
			shown, got, err = ask(line, append(keys, "\r")...)
		case 2:
			want = c + g.comp
			shown, got, err = ask(line, c, "\t", "\r")
		case 3:
			shown, got, err = ask(line, c, "\x03")
			vrt.Assert(err == readline.ErrInterrupt, "Ctrl-C")
			err, want = nil, c
		}
		vrt.Observe("line", got, want)
		vrt.Assert(err == nil && got == want, "the line is the one typed, recalled or completed")
		vrt.Assert(bytes.Contains(shown, []byte(prompt)), "the prompt is shown")
		vrt.Reach("line")
	case 1:
		e := []string{"", "one", string(vrt.Rune("e", 33, 126))}[vrt.Choose("entry", 3)]
		vrt.Assert(readline.AddHistory(e) == nil, "AddHistory")
		g.add(e)
		vrt.Reach("history")
	case 2:
		p := []string{"hist", "other"}[vrt.Choose("path", 2)]
		readline.SetHistoryPath(p)
		g.path = p
		g.hist = append([]string{}, g.files[p]...)
		vrt.Reach("path")
	case 3:
		g.comp = []string{"tab", "\xe4\xb8\x96"}[vrt.Choose("completer", 2)]
		readline.SetAutoComplete(tab(g.comp))
		vrt.Reach("completer")
	case 4:
		c := string(vrt.Rune("p", 33, 126))
		from := len(vsys.OsStdout.Out)
		shown, got, err := ask(func() (string, error) {
			b, err := readline.Password("key: ")
			return string(b), err
		}, c, "z", "\r")
		vrt.Assert(err == nil && got == c+"z", "the password is the one typed")
		vrt.Assert(bytes.Contains(shown, []byte("key: ")), "the password's prompt is shown")
		vrt.Assert(!bytes.Contains(vsys.OsStdout.Out[from:], []byte("z")), "the password is not shown")
		vrt.Reach("password")
	case 5:
		readline.SetHistoryPath("")
		g.path, g.hist = "", nil
		vrt.Reach("no path")
	}
}

// Global: the functions of the package act on one session, whatever is called in which order.
func Global() {
	vsys.Reset()
	t := &vsys.Term{Cols: 80, Rows: 24}
	vsys.Fds[0], vsys.Fds[1] = t, t
	g := &globals{comp: "\t", files: map[string][]string{"hist": {"old", "new"}}}
	vsys.Put("hist", []byte("old\nnew\n"))
	for n := vrt.Param("calls", 3); n > 0; n-- {
		global(g)
	}
	// at last, all of the history is there and the files hold what was added
	keys := []string{}
	want := ""
	for i := range g.hist {
		keys = append(keys, "\x10")
		want = g.hist[len(g.hist)-1-i]
	}
	_, got, err := ask(func() (string, error) { return readline.Line("$ ") }, append(keys, "\r")...)
	vrt.Assert(err == nil && got == want, "the history is complete")
	for name, lines := range g.files {
		var text []byte
		for _, l := range lines {
			text = append(text, l...)
			text = append(text, '\n')
		}
		b, _ := vsys.Get(name)
		ok := len(b) == len(text)
		for i := 0; ok && i < len(b); i++ {
			ok = vrt.And(ok, b[i] == text[i])
		}
		vrt.Assert(ok, "the file holds what was added")
	}
	vrt.Reach("done")
}

func init() { Funcs["Global"] = Global }
