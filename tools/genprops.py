#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One call to P() per property."""
import json, os, sys
out = []
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    out.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

P("E01", "Every editing key does to the line what the shortcut table documents",
  "For every line, cursor position and emacs-mode editing key, the text and the cursor after the key are exactly those the shortcut table documents: insert at the cursor, move by character, by word (a maximal run of ASCII letters and digits) or to either end of the line, delete one character or one word, cut to either end or back over a word, swap two characters. Everything outside the affected range keeps its content and order.",
  ["inputs", "histories"], "all line contents and cursor positions within the bound, all editing operations, and sequences of operations by induction over (text, cursor, cut text)",
  "No existing test edits a line at all; the wrong-by-one cases need particular text/cursor/word-boundary combinations.",
  ["runebuf.go", "operation.go", "doc/shortcut.md"],
  [("editing operations on the line buffer", "runebuf.go"), ("key dispatch", "operation.go ioloop")],
  [("line buffer", "text and cursor", "runebuf.go RuneBuffer")], ["RuneBuffer.Runes/Pos", "line returned by Readline"])
P("E02", "No key sequence can crash the editor",
  "Whatever keys arrive, in emacs or vim mode, while editing, searching or completing, with any terminal width, the editor never panics, never loops forever, and keeps the cursor inside the line.",
  ["inputs", "histories", "configurations"], "all key sequences up to the stated length (control, meta, escape sequences, any Unicode character), from a range of starting lines, modes, completers and terminal widths",
  "The existing tests press no key.",
  ["operation.go", "runebuf.go", "vim.go", "search.go", "complete.go", "terminal.go", "utils.go"],
  [("bounds guards in each editing operation", "runebuf.go"), ("mode transitions", "operation.go ioloop, complete.go, search.go, vim.go")],
  None, ["process stays alive", "Readline returns"])
P("E03", "Yank reinserts exactly what the last cut removed",
  "After a cut (to start or end of line, word back, word forward, character at the cursor, whole line), Ctrl-Y inserts exactly the removed text at the cursor and leaves the rest of the line alone; typing, backspacing and cursor movement between the cut and the yank do not change what is yanked. Backing up with a line-buffer backup and later restoring it gives back exactly the text and cursor that were saved, whatever was edited in between.",
  ["inputs", "histories"], "all lines, cursor positions, cut operations and interleaved edits within the bound",
  "No test exercises cutting, yanking or backup.",
  ["runebuf.go", "operation.go"],
  [("kill buffer", "runebuf.go pushKill/Yank"), ("backup", "runebuf.go Backup/Restore")],
  [("kill text", "what Ctrl-Y inserts", "runebuf.go lastKill")], ["RuneBuffer.Runes"])
P("K01", "The lines returned are the characters typed, complete and in order",
  "For every sequence of lines of printable text, in any Unicode characters and however the input is split into reads, successive Readline calls return exactly those lines, in order, with nothing lost, duplicated or changed, including lines typed ahead and a last line cut off by end of input; a default line is returned unchanged if Enter is pressed at once.",
  ["inputs", "histories"], "all line contents within the bound, all ways to split the byte stream into reads, interactive and non-interactive",
  "The only end-to-end test reads from /dev/null.",
  ["terminal.go", "operation.go", "readline.go", "std.go"],
  [("rune reader and kick handshake", "terminal.go ioloop"), ("line submission", "operation.go ioloop/Runes")],
  None, ["Instance.Readline", "ReadSlice", "ReadlineWithDefault"])
P("K02", "Escape sequences act as their control keys and never leak into the line",
  "In emacs mode cursor keys, Home, End and Delete sent as escape sequences (CSI or SS3), and Meta keys sent as Esc plus a character, have exactly the effect of the key they stand for; any other CSI sequence built from digits and semicolons and any other SS3 sequence is swallowed whole without changing the line, and a cursor position report reaches who asked for it. The key typed after such a sequence is interpreted normally.",
  ["inputs"], "all escape sequences with up to the stated number of parameter characters and any final character, at every cursor position of a line",
  "No test feeds an escape sequence.",
  ["terminal.go", "utils.go"],
  [("escape state machine", "terminal.go ioloop"), ("sequence decoding", "utils.go readEscKey/escapeExKey/escapeSS3Key/escapeKey")],
  None, ["line returned by Readline"])
P("K03", "Each read ends with the documented result",
  "Enter returns the whole line whatever the cursor position; Ctrl-C returns the interrupt error together with the text typed so far; Ctrl-D (in emacs mode and vim's insert mode, with no search or candidate list open) returns io.EOF on an empty line and deletes a character otherwise; end of input returns the pending text first and then io.EOF. After each of these the next read starts with an empty line and raw mode has been left exactly as often as it was entered.",
  ["inputs", "histories", "configurations"], "all line contents and cursor positions, the terminating keys, prompt/EOF/interrupt-prompt and unique-edit-line configurations",
  "No test checks a returned value or error of Readline.",
  ["operation.go", "readline.go"],
  [("submit/interrupt/EOF branches", "operation.go ioloop"), ("raw mode bracket", "operation.go Runes")],
  None, ["Instance.Readline results", "Config.FuncMakeRaw/FuncExitRaw calls"])
P("K04", "No key sequence wedges the reader",
  "Whatever keys have been typed, in emacs or vim mode, while searching or completing, the editor keeps reading input: after Ctrl-C (pressed as often as there are modes to leave) the pending Readline call returns, and keys typed later are acted on.",
  ["inputs", "histories", "schedules"], "all key sequences up to the stated length followed by interrupts",
  "The handshake between the terminal reader and the editor is not exercised by any test.",
  ["operation.go", "terminal.go", "vim.go"],
  [("kick handshake after line-ending keys", "terminal.go ioloop, operation.go KickRead calls"), ("vim argument keys", "vim.go readNext")],
  None, ["Readline returns"])
P("K05", "Between reads the input is left to others",
  "Before the first read, after every read has returned in any way and in any mode, and after any other call of the session, nobody reads the standard input and raw mode is off: what is typed then can be read by another program or by the application itself, byte for byte, and the next read gets what is typed after it starts.",
  ["histories", "inputs"], "all keys up to the stated length in each of 14 editor modes, every way to end a read, all sequences of up to 2 (thorough 3) calls",
  "The existing tests type nothing.",
  ["terminal.go", "operation.go", "readline.go", "password.go"],
  [("the terminal stops after a key that may end the line", "terminal.go ioloop/KickRead"), ("reading goes on when it did not", "operation.go readKey, Runes")], None, ["reads of Config.Stdin", "lines returned"])
P("V01", "Vim mode commands act as documented by vi",
  "In vim mode Esc enters normal mode, and for every line, cursor and normal-mode command (h l 0 ^ $ x r d-motions p b w e f F t T i I a A s S c-motions) the text, cursor and mode afterwards are the command's; unknown commands change nothing. Enter and Ctrl-C return to insert mode, so the next line starts in insert mode.",
  ["inputs", "histories"], "all lines and cursor positions within the bound, every normal-mode command with every argument key",
  "No test turns vim mode on.",
  ["vim.go", "runebuf.go"],
  [("normal-mode tables", "vim.go"), ("underlying buffer operations", "runebuf.go")],
  [("vim mode", "insert or normal", "vim.go opVim.vimMode")], ["line returned by Readline"])
P("H01", "In-memory history is exactly the submitted lines, and browsing never alters it",
  "Walking back with Ctrl-P and forward with Ctrl-N shows exactly the lines submitted or saved between reads, oldest to newest, without empty lines and without immediate repeats, and the line being typed is restored at the newest end. Neither browsing nor editing a recalled line nor submitting an edited copy changes any stored entry; what is stored is the text that was submitted; disabling, enabling and resetting history take effect as named.",
  ["histories", "inputs", "configurations"], "all sequences of submissions, browsing and editing within the bound, and history limits",
  "No test touches history.",
  ["history.go", "operation.go"],
  [("entry list and working copies", "history.go New/Update/Prev/Next"), ("dispatch", "operation.go CharPrev/CharNext/CharEnter")],
  [("entries", "submitted lines plus the line being edited", "history.go opHistory.history")], ["lines recalled by Ctrl-P/Ctrl-N"])
P("H02", "History saved to a file comes back after a restart",
  "Lines (without surrounding blanks) submitted or saved with a history file are appended to it, and a new instance on the same file recalls the same entries in the same order (blank lines skipped, surrounding blanks trimmed), limited to the most recent entries the history limit allows; a file that has outgrown the limit is rewritten to exactly those entries. A last line without a newline counts as an entry, and changing the history path at run time moves persistence to the new file.",
  ["histories", "inputs", "configurations"], "all file contents and entry texts within the bound, history limits around the number of entries",
  "No test reads or writes a history file.",
  ["history.go", "operation.go", "readline.go"],
  [("load", "history.go historyUpdatePath"), ("append", "history.go Update"), ("compaction", "history.go Compact/rewriteLocked")],
  None, ["history file content", "lines recalled after restart"])
P("H03", "A crash or I/O error never loses saved history",
  "At every point where the process could be killed, and for every file operation that could fail or write short, the history file afterwards holds every entry that was there before and belongs within the limit: compaction replaces the file in one step with a complete copy or not at all. Readline keeps working in memory when the file cannot be opened, written or replaced.",
  ["crash_points", "fault_sequences"], "a kill before each file operation, and every single failing or short operation, while loading, compacting and appending",
  "Tests cannot enumerate crash points and inject no faults.",
  ["history.go"],
  [("write to temporary file, then rename", "history.go rewriteLocked")],
  None, ["history file content after the crash or fault"])
P("H04", "History search finds the nearest match and can be undone",
  "Ctrl-R and Ctrl-S with a pattern show the nearest history entry in that direction that contains the pattern (ignoring ASCII case if so configured), starting from where the search stands, with the cursor at the match; repeating the key moves on to the next match; if nothing matches the line stays. Ctrl-G or Ctrl-C restores the line from before the search, Enter submits what is shown, and no search, whatever is edited afterwards, changes a stored entry.",
  ["inputs", "histories"], "all histories and patterns within the bound, both directions, with repeats, backspace, accept and cancel",
  "No test enters search mode.",
  ["search.go", "history.go", "runes.go"],
  [("matching", "history.go FindBck/FindFwd"), ("search mode", "search.go")],
  None, ["line shown and returned"])
P("C01", "Prefix completion offers exactly the tree's continuations",
  "For every command tree with distinct names on each level and every line, the candidates offered are exactly the continuations of the word being typed that the tree allows below the words already entered (dynamic names included), and the reported length is how much of each candidate is already typed: shared prefix plus candidate always spells a name of the tree. The completer never changes the line or the tree. The picture of a tree has every name once, in order and indented by its depth.",
  ["inputs", "configurations"], "all trees and lines within the bound, including spaces, partial words, and dynamic children",
  "The prefix completer has no test.",
  ["complete_helper.go", "runes.go"],
  [("tree walk", "complete_helper.go doInternal")], None, ["AutoCompleter.Do result"])
P("C02", "Segment completion filters on the last segment and keeps candidates intact",
  "The segment completer passes the line before the cursor split at spaces (joining the segments with spaces gives back the line) to the application, and offers for exactly those returned candidates that start with the last segment, in order, the rest of the candidate followed by a space; the reported length is that of the last segment. The application's candidates and the line are not modified.",
  ["inputs"], "all lines, cursor positions and candidate lists within the bound, including candidates sharing memory",
  "Ten fixed examples on one tree.",
  ["complete_segment.go", "runes.go"],
  [("split", "complete_segment.go SplitSegment"), ("filter", "complete_segment.go RetSegment/Do")], None, ["SegmentComplete.Do result"])
P("C03", "Tab completion inserts the chosen text at the cursor and nothing else",
  "Tab with one candidate inserts it at the cursor, with several inserts their longest common prefix, or lists them when there is none; in select mode the selection moves within the candidates and Enter inserts exactly the selected one; Ctrl-G or Ctrl-C leaves the line as it was. Text on either side of the cursor is preserved and the application's candidates are not modified.",
  ["inputs", "histories", "configurations"], "all lines, cursors, candidate lists, selection key sequences and terminal widths within the bound",
  "No test presses Tab.",
  ["complete.go", "operation.go", "runes.go"],
  [("completion state machine", "complete.go OnComplete/HandleCompleteSelect"), ("insertion", "runebuf.go WriteRunes")],
  [("selection", "index of the selected candidate", "complete.go candidateChoise")], ["line returned", "candidates passed by the application"])
P("R01", "After every key the screen shows the prompt, the line and the cursor",
  "On a terminal that wraps long lines and is not resized while more than one row is shown, after every key the rows starting at the prompt show exactly the prompt followed by the current line, nothing is left over from earlier states of the line, and the terminal cursor stands on the character at the editing position. While a search goes on its pattern is shown below the line, while candidates are listed all of them are, the match and the selected candidate (the one Enter would insert) alone are marked; afterwards nothing of that is left. A prompt set during a read is shown from the next Refresh or key on.",
  ["inputs", "histories", "configurations"], "all edit sequences, prompts and terminal widths within the bound, single-column characters",
  "No test looks at the output.",
  ["runebuf.go", "utils.go", "runes.go"],
  [("erase and redraw", "runebuf.go cleanOutput/output/getBackspaceSequence"), ("row computation", "utils.go SplitByLine/LineCount")],
  None, ["bytes written to Config.Stdout, interpreted by a terminal model"])
P("R02", "Display width and colour filtering are right for every string",
  "The width of a string is the sum over its characters of 0 for non-spacing, control and format characters, 2 for Han, Hangul, Hiragana and Katakana, a tab stop for tab, 1 otherwise; removing colour sequences removes exactly the ESC[...m sequences, keeps all other text in order, and works on every string, including one ending in an escape. The number of rows computed for a text equals the number of rows the terminal needs.",
  ["inputs"], "every Unicode code point for the width; all strings within the bound for filtering and splitting",
  "Four fixed strings.",
  ["runes.go", "runes/runes.go", "utils.go"],
  [("width tables", "runes.go Width"), ("filter", "runes.go ColorFilter"), ("splitting", "utils.go SplitByLine/LineCount")], None, ["Runes methods", "runes package functions"])
P("R03", "Application output during a read is passed through and the line redrawn",
  "Whatever an application writes through the instance's Stdout or Stderr, in lines, from any goroutine and at any moment of a read, reaches the underlying writer exactly once, unaltered and in one piece, the write reports its own length, and when a read is in progress prompt and line are redrawn after it; no write loses or reorders typed characters. Setting the title sets the title and leaves the screen alone.",
  ["schedules", "inputs"], "all interleavings (within the preemption bound) of a writer goroutine with the reading and editing goroutines, all payloads within the bound",
  "One test calls SetPrompt in a loop and checks nothing but absence of races.",
  ["operation.go", "runebuf.go", "terminal.go"],
  [("refresh around the write", "operation.go wrapWriter.Write"), ("buffer lock", "runebuf.go Refresh")], None, ["Config.Stdout/Stderr", "line returned"])
P("R04", "Rune-slice helpers agree with their mathematical definitions",
  "For all rune slices, forward and backward search return the first and last occurrence or -1, equality and prefix tests (exact and ASCII-case-folding) are exact, and aggregating candidates returns their longest common prefix and leaves each candidate's remainder; both copies of the helpers agree and do not modify their inputs' elements.",
  ["inputs"], "all rune slices within the bound, arbitrary rune values",
  "Four fixed examples for aggregation, none for search.",
  ["runes.go", "runes/runes.go"],
  [("helpers", "runes.go"), ("deprecated copy", "runes/runes.go")], None, ["return values"])
P("P01", "A masked password never reaches the screen",
  "While a masked line is read, what is written to the terminal depends only on the number of characters typed and the keys pressed, never on which characters were typed: two passwords of equal length typed and edited alike (with keys which do not look at words) produce identical output, and the bytes returned are the password typed.",
  ["inputs", "histories"], "all pairs of equal-length passwords within the bound, with cursor movement and deletion in between, any mask",
  "A relation between two runs on all secrets; no test reads a password.",
  ["runebuf.go", "password.go", "operation.go"],
  [("masked output", "runebuf.go output"), ("password configuration", "password.go")], None, ["bytes written to Config.Stdout", "ReadPassword result"])
P("P02", "Reading a password leaves the session as it was and keeps no trace",
  "After ReadPassword returns, in any way, prompt, mask, completer, listener and history (in memory and in the file) are what they were before, the next Readline behaves as if the password had never been read, the password is in neither history nor history file, and the session's own listener and completer are not told it.",
  ["inputs", "histories", "configurations"], "all passwords, earlier history and following input within the bound; completed, interrupted or ended by EOF",
  "No test reads a password.",
  ["password.go", "operation.go", "history.go"],
  [("configuration swap", "password.go EnterPasswordMode/ExitPasswordMode, operation.go SetConfig"), ("history reopening", "history.go Init")], None, ["next Readline", "history file"])
P("P03", "Changing the configuration takes full effect and can be taken back",
  "A session given another configuration between two reads (SetConfig) goes on exactly like a session opened with that configuration, and given its first configuration again it goes on as if the other had never been set, with its own history, vim mode and settings, also when the terminal was resized in between; a single setting changed between reads (prompt, mask, vim mode, painter, listener) is like opening the session with it. SetConfig returns the configuration it replaces.",
  ["configurations", "histories", "inputs"], "pairs of configurations which differ in each of the documented settings, new or cloned; five lines read in each, with every character within the bound",
  "No test changes a configuration.",
  ["readline.go", "operation.go", "vim.go", "search.go", "complete.go", "terminal.go"],
  [("configuration swap", "readline.go SetConfig/Clone/Init, operation.go SetConfig, terminal.go SetConfig"), ("vim mode", "vim.go"), ("width of search and candidates", "search.go, complete.go OnWidthChange")], None, ["terminal output", "lines returned", "listener calls"])
P("P04", "Sessions in one process are independent",
  "Two sessions with their own input, output and configuration, used side by side in one process, do each exactly what it would do alone: the same lines, the same output, the same listener calls, with its own kill buffer, history, search, vim mode, candidates and width, whatever is done in the other and in whatever order.",
  ["histories", "inputs", "configurations"], "two sessions of different configurations, all interleavings of keystrokes within the bound, each compared with a session of its own",
  "No test opens two sessions.",
  ["runebuf.go", "operation.go", "search.go", "complete.go", "vim.go", "history.go", "terminal.go"],
  [("state per session", "readline.go NewEx, operation.go NewOperation"), ("kill buffer", "runebuf.go pushKill/Yank")], None, ["terminal output", "lines returned", "listener calls"])
P("G01", "The package-level functions act on one shared session",
  "Line, Password, AddHistory, SetHistoryPath and SetAutoComplete, called in any order, act on one session: a line comes back as typed, recalled or completed with the completer set last; entries are exactly those added (lines typed are not) or loaded from the path set, and go to the file of the path in force; setting the completer, reading a line or a password changes none of the rest.",
  ["histories", "inputs"], "all sequences of up to 3 (thorough 4) calls with arbitrary characters typed and added",
  "No test calls a package-level function.",
  ["std.go", "readline.go", "operation.go", "history.go"],
  [("global instance", "std.go getInstance"), ("cloned configuration", "std.go SetHistoryPath/SetAutoComplete, readline.go Clone")], [("std", "the shared instance", "std.go")], ["results of the functions", "history file", "terminal output"])
P("N01", "Remote messages survive encoding and any framing of the connection",
  "Reading back a written message gives the same type and data, for every type and payload, however the connection splits the bytes; consecutive messages do not run into each other. A write reports the number of payload bytes, and truncated, undersized or malformed input gives an error or is ignored, never a panic.",
  ["inputs", "fault_sequences"], "all payloads within the bound, all read splits, all byte strings within the bound as input, all truncation points",
  "The remote protocol has no test.",
  ["remote.go"],
  [("framing", "remote.go ReadMessage/WriteTo"), ("initial reports", "remote.go init/GotIsTerminal/GotReportWidth")], None, ["ReadMessage result", "RemoteSvr constructor"])
P("N02", "A remote session delivers every keystroke and never hangs",
  "Data sent by the client reaches the server's reader complete and in order, whatever the interleaving of arrival and reading; a reader waiting while data is available is always woken, end of session yields EOF only after all data has been read, and closing the session releases every pending reader and writer.",
  ["schedules", "inputs"], "all interleavings within the preemption bound of the receiving goroutine, the reader, writers and Close, for up to the stated number of messages",
  "A lost wake-up needs one particular interleaving; no test opens a remote session.",
  ["remote.go"],
  [("wake-up channel", "remote.go Read/readLoop"), ("write queue", "remote.go writeLoop/Write/writeMsg"), ("close", "remote.go Close")], None, ["RemoteSvr.Read/Write results"])
P("N03", "The remote client mirrors the session on its own terminal",
  "The client writes the server's output to its standard output unaltered and in order, puts its terminal in raw mode exactly while the server asks for it, sends every byte of its input in order followed by one end of file, reports whether it is a terminal and its width first and every later change of the width, ignores messages it has no use for, and when the connection ends, in any way, returns with its terminal in the exact state from before.",
  ["inputs", "fault_sequences", "histories"], "all sequences of up to 2 (thorough 3) events of 8 kinds with arbitrary data, terminal states and widths; three ways the connection ends; all read splits of the stated sizes",
  "The remote protocol has no test.",
  ["remote.go", "utils.go", "utils_unix.go", "term.go"],
  [("client loops", "remote.go ServeBy/readLoop"), ("reports", "remote.go init/reportWidth/reportIsTerminal"), ("raw mode", "utils.go RawMode")], None, ["client's standard output", "termios", "bytes sent"])
P("N04", "Every remote connection is a session of its own",
  "ListenRemote serves every connection which greets it properly with one call of the handler and an instance of its own: input, lines, history, output, width, terminal report and raw mode of one client do not mix with those of another, a client which says nothing, sends nonsense or breaks off keeps no other from being served, the caller's configuration is not changed, and the connection is closed when the handler returns and not before. Closing the listener ends ListenRemote while sessions go on; errors of listening are returned. DialRemote serves the standard input over the connection, closes it at the end and returns an error of connecting.",
  ["inputs", "histories", "configurations"], "all sequences of up to 2 (thorough 3) events, with proper greetings of 4 (thorough 5), of 7 kinds at 2 (and of 2 at 3) clients; 4 ways a client may greet, early or late; both kinds of terminal; handlers that close the instance or not",
  "The remote protocol has no test.",
  ["remote.go", "readline.go"],
  [("server", "remote.go ListenRemote/HandleConn/HandleConfig"), ("client", "remote.go DialRemote")], [("cfg", "the caller's configuration", "remote.go HandleConn")], ["results of Readline in the handlers", "bytes sent to each client", "connections closed"])
P("S01", "Prefilled input comes first, complete and in order",
  "Bytes written ahead with WriteStdin are delivered to the reader before any byte of the real input that is read after them, complete, once and in order, whatever the sizes of the writes and of the reader's buffer, and the real input is delivered unaltered.",
  ["inputs", "schedules"], "all prefill contents and sizes, read-buffer sizes and interleavings within the bound",
  "No test prefills input.",
  ["std.go", "readline.go", "terminal.go"],
  [("prefill buffer", "std.go FillableStdin")], None, ["reader returned by NewFillableStdin"])
P("S02", "A cancelable reader delivers input unaltered and stops when closed",
  "Reads through the cancelable reader return exactly what the underlying reader returned, each byte once and in order, errors included; after Close every pending and later Read returns EOF promptly, and Close may be called any number of times from any goroutine.",
  ["schedules", "inputs"], "all interleavings within the preemption bound of reader, worker and closer",
  "No test closes a pending read.",
  ["std.go"],
  [("hand-over to the worker", "std.go CancelableStdin")], None, ["Read results"])
P("T01", "Raw mode is reversible and changes only what it must",
  "For every terminal state, entering raw mode turns off echo, line buffering, signal generation, input translation and flow control and changes nothing that is unrelated, and restoring puts back the exact state from before; reading a password from a terminal restores the exact state on every exit, and an ioctl failure leaves the terminal as it was.",
  ["inputs", "fault_sequences"], "all termios values (every flag word and control character), and failure of each ioctl",
  "No test has a terminal.",
  ["term.go", "term_linux.go", "utils.go"],
  [("flag computation", "term.go MakeRaw/restoreTerm/ReadPassword"), ("ioctl", "term_linux.go")], None, ["termios passed to the kernel"])
P("T02", "A suspended session gives the terminal back and goes on where it was",
  "On Ctrl-Z, whatever is being edited, searched, selected or asked for, the line is removed from the screen and raw mode is left before the process is stopped, and raw mode stays off until the process goes on; then raw mode is entered once, the prompt, line and cursor are shown again as they were, and the line is edited further and returned complete. This holds every time it is done within a read, and afterwards nothing of it remains. A session closed while the process is stopped stays out of raw mode.",
  ["inputs", "histories", "schedules"], "lines of up to 1 (thorough 2) arbitrary narrow or wide characters, or 10 more, any of 7 states, 2 prompts, 2 widths, suspended twice, all durations of the pause",
  "No test can stop its own process.",
  ["operation.go", "terminal.go", "utils_unix.go", "utils.go"],
  [("key handling", "terminal.go ioloop CharCtrlZ, operation.go SleepToResume"), ("stop and resume", "terminal.go SleepToResume, utils_unix.go SuspendMe, utils.go WaitForResume")], None, ["terminal output", "raw mode callbacks", "signals sent", "line returned"])
P("L01", "Close ends a session from anywhere, any number of times",
  "Close called from another goroutine at any moment makes a pending Readline return, leaves raw mode, and itself returns without waiting for further input, and afterwards no goroutine of the session is left, provided closing the input releases a pending read of it, as the standard input's does; closing twice is harmless.",
  ["schedules"], "all interleavings within the preemption bound of Close with a pending or starting Readline",
  "The only test closes after a fixed delay and is over before Close runs.",
  ["readline.go", "terminal.go", "operation.go", "std.go"],
  [("shutdown", "readline.go Close, terminal.go Close, operation.go Close"), ("input wrapper close", "std.go")], None, ["Readline and Close return"])
P("L03", "A signal to exit closes the session, other signals do not",
  "After CaptureExitSignal, an interrupt or termination signal at any moment acts as Close does: a pending read returns, whatever is being edited, searched or selected, raw mode is left, later reads return io.EOF and nothing of the session remains running; a second signal is harmless, and other signals have no effect.",
  ["schedules", "histories", "inputs"], "both signals in each of 14 editor modes and 5 lines, at four moments of a Readline or ReadPassword with and without keys typed ahead, one or two handlers, other signals before",
  "No test sends a signal.",
  ["readline.go", "utils.go"],
  [("signal handler", "utils.go CaptureExitSignal, readline.go CaptureExitSignal"), ("shutdown", "readline.go Close")], None, ["Readline returns", "raw mode callbacks", "goroutines left"])
P("L02", "Listener, input filter and painter see the true line and are obeyed",
  "After each key of emacs mode and vim's insert mode (the selection of a candidate aside) the listener is called once with the current text and cursor and the key that was handled, and a line and cursor it returns replace the current ones; the input filter sees every key before it is handled, a key it drops has no effect, and a key it translates acts as the translated key. The painter affects only what is shown, never the line returned.",
  ["inputs", "histories", "configurations"], "all key sequences within the bound, arbitrary listener replacements, arbitrary filter maps",
  "No test installs a listener, filter or painter.",
  ["operation.go", "readline.go", "runebuf.go"],
  [("listener call", "operation.go ioloop"), ("filter", "operation.go ioloop"), ("painter", "runebuf.go output")], None, ["listener arguments", "line returned"])
P("W01", "The Windows console writer passes text through and survives any sequence",
  "For every byte sequence written, text outside escape sequences reaches the console unaltered and in order with the console calls, the sequences the library itself uses (cursor moves, colours and attributes, erasing the row and to the end of the screen, the title) are turned into the right console calls and not printed, whatever the console's size, and no sequence, however malformed, split or numbered, makes the writer panic.",
  ["inputs"], "all byte strings, and all texts of characters and sequences, within the bound, over any split into writes of whole characters",
  "Windows-only code, compiled but never run by the tests.",
  ["ansi_windows.go", "utils.go"],
  [("parser", "ansi_windows.go ANSIWriterCtx.process/ioloopEscSeq"), ("colour tables", "ansi_windows.go")], None, ["bytes passed to the console writer"])

P("W02", "Windows keys arrive as a terminal would send them",
  "For every sequence of console events, a pressed key with a character arrives as that character in UTF-8, the arrow keys as Ctrl-B, Ctrl-F, Ctrl-P and Ctrl-N, a key with Alt held as ESC and the character (Alt-Backspace as ESC DEL), Ctrl with A, E, R or S as the control character; released keys, keys without a character and other events send nothing, and modifiers stop counting when released.",
  ["inputs"], "all event sequences within the bound",
  "Windows-only code, compiled but never run by the tests.",
  ["rawreader_windows.go", "windows_api.go"],
  [("key translation", "rawreader_windows.go RawReader.Read")], None, ["console input records"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for o in out:
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
print(len(out), "properties")
