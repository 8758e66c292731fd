"""Harness groups per property: bounds for quick (params) and thorough (params + deep)."""

COMMON_ASSUMPTIONS = [
    "the engine's model of Go (go/ssa semantics, goroutine scheduling, the library models in harness/model) is faithful; sampled paths and every reported counterexample are checked against the compiled code",
    "goroutines run until they block, in FIFO order, except where a harness states a delay bound",
    "z3's verdicts (thorough: a sample is re-decided by cvc5)",
]


def G(pkg, fn, params=None, deep=None, **kw):
    d = dict(pkg=pkg, fn=fn, params=params or {}, deep=deep or {})
    d.update(kw)
    return d


OPS = ["MoveToLineStart", "MoveToLineEnd", "MoveBackward", "MoveForward", "WriteRune", "WriteRunes", "Backspace", "Delete", "Kill", "KillFront", "Erase", "Transpose",
       "MoveToPrevWord", "MoveToNextWord", "BackEscapeWord", "DeleteWord", "MoveToEndWord", "MoveTo", "Replace", "WriteString"]

MODES = ["history", "list", "plain", "search back", "search forward", "search found", "select", "single", "vim c", "vim d", "vim f", "vim insert", "vim normal", "vim r"]

NOT_APPLICABLE = {}

PROPS = {
    "E01": dict(
        bounds="line buffer operations: every line of up to 5 (thorough 8) arbitrary runes, every cursor position; documented keys in a whole session: lines of up to 4 (thorough 6) runes; each key at 5 places of lines of 63 to 4096 (thorough 70000) characters",
        groups=[G("sess", "LongEdit", dict(sizes=18), dict(ats=3), reach=["done"], deep_time=400),
            G("rb", "EditOp", dict(n=5), dict(n=8), time=40, reach=OPS),
            G("sess", "EditKey", dict(n=4), dict(n=6), reach=["Ctrl-A", "Meta-B", "Meta-Backspace", "character", "Ctrl-T"]),
            G("rb", "Accessors", dict(n=3), dict(n=5), reach=["slice", "reset"]),
            G("rb", "Alias", dict(n=2), dict(n=4), reach=["done"]),
        ]),
    "E02": dict(
        bounds="line buffer operations: any 2 (thorough 3) operations from any state; sessions: one (thorough two) arbitrary keys in each of 14 editor modes, 5 lines, terminal widths 10, 3, 0 (thorough also 1, -1)",
        outside="Ctrl-Z, which suspends the process",
        groups=[
            G("rb", "EditAny", dict(n=2, steps=2), dict(n=3, steps=3), reach=["done"]),
            G("sess", "Robust", dict(steps=1, widths=3), dict(steps=1, widths=5, resize=1), reach=MODES),
            G("sess", "Robust", dict(steps=2, widths=1, lines=2, history=1), dict(steps=2, widths=2, lines=4, history=2), reach=MODES, time=60, deep_time=1500, thorough_only=True),
            G("sess", "RobustSelect", dict(steps=3), dict(steps=4, resize=1), reach=["done"], deep_time=900),
        ]),
    "E03": dict(
        bounds="lines of up to 4 (thorough 6) arbitrary runes, one (thorough 2) operations between cut and yank, backup and restore, one between two yanks; cut and put back at 5 places of lines of 63 to 255 (thorough 70000) characters",
        groups=[G("sess", "LongEdit", dict(sizes=7), dict(ats=3), reach=["done"], deep_time=400),
            G("rb", "Yank", dict(n=4, between=1), dict(n=5, between=2), reach=["Delete", "Kill", "KillFront", "Erase", "BackEscapeWord", "DeleteWord"]),
            G("rb", "Yank", dict(n=3, between=0, after=1), dict(n=4, between=0, after=1), reach=["Delete", "Kill", "KillFront", "Erase", "BackEscapeWord", "DeleteWord"]),
            G("rb", "Backup", dict(n=2, between=1), dict(n=3, between=2), reach=["restored"]),
        ]),
    "R01": dict(
        bounds="terminal widths 5, 4, 3 (thorough also 80 and 2), 2 (thorough 5) prompts with colours and wide characters; lines of up to 2 (thorough 3) characters of 3 (thorough 4) width classes, every cursor position, one (lines of 1: two) of 20 editing keys, then Enter or Ctrl-C; masked lines, UniqueEditLine, a second read, the terminal resized between two reads or while one row is shown; the prompt set to one of 4 once or twice during a read by the listener, from outside with Refresh, or before the next key; searches of up to 2 (thorough 4) keys in 3 histories, left in 8 ways; 5 lists of candidates with up to 2 (thorough 3) keys of 13; lines of 63 to 65 (thorough up to 1000) characters over many rows, one key at 5 places",
        outside="resizing while more than one row is shown, a painter which changes widths, control characters in the line, the bottom of the screen (the terminal scrolls)",
        groups=[G("sess", "LongScreen", dict(sizes=3), dict(sizes=13, widths=3), reach=["done"], deep_time=900),
            G("sess", "Screen", dict(n=2), dict(n=3, classes=4, prompts=5, widths=5), reach=["done", "enter", "interrupt"], deep_time=900),
            G("sess", "Screen", dict(n=1, keys=2, widths=2, prompts=1, classes=2), dict(n=2, keys=2, widths=3, prompts=2, classes=3), reach=["done", "enter", "interrupt"], deep_time=900),
            G("sess", "Screen", dict(n=1, masked=1), dict(n=2, masked=1, classes=4), reach=["done", "enter", "interrupt"], deep_time=400),
            G("sess", "Screen", dict(n=2, unique=1, classes=2, widths=2), dict(n=3, unique=1), reach=["done", "erased"], deep_time=400),
            G("sess", "Screen", dict(n=1, second=1), dict(n=2, second=1, classes=4, widths=5), reach=["done", "enter"], deep_time=400),
            G("sess", "Screen", dict(n=2, second=1, resized=1, classes=2, widths=2, prompts=1), dict(n=2, second=1, resized=1, classes=3, widths=3, prompts=2, keys=2), reach=["done", "enter", "resized"], deep_time=900),
            G("sess", "ScreenPrompt", dict(n=1, times=1, prompts=2, keys=8), dict(n=2, times=2, prompts=2, widths=3), reach=["done"], deep_time=900),
            G("sess", "ScreenPrompt", dict(n=2, times=2, prompts=1, keys=1), dict(n=2, times=3, prompts=1, keys=3), reach=["done"], deep_time=900),
            G("sess", "ScreenSearch", dict(keys=2), dict(keys=3, widths=5, prompts=3), reach=["done", "enter", "marked"], deep_time=900),
            G("sess", "ScreenSearch", dict(keys=3, widths=2, prompts=1, histories=2, typed=1), dict(keys=4, widths=2, prompts=1, typed=1), reach=["done", "enter", "marked"], deep_time=900),
            G("sess", "ScreenComplete", dict(keys=2), dict(keys=3, widths=5, prompts=5), reach=["done", "listed", "marked"], deep_time=900),
            G("sess", "ScreenComplete", dict(keys=3, widths=2, prompts=1, words=2), dict(keys=4, widths=3, prompts=2, words=2), reach=["done", "listed", "marked", "inserted"], deep_time=900),
        ]),
    "R03": dict(
        bounds="one (thorough two) writes through Stdout, Stderr or the instance, of 6 texts with a symbolic byte, before, during (6 states: typing, searching, listing, selecting, a password) and after a read and after the end of input, terminal widths 5 and 80, 2 prompts, failing and short underlying writes; up to two goroutines writing while one of 11 key sequences is handled, with 1 delay (one writer, 3 key sequences: 2; thorough: all) placed before any statement that synchronizes; writes of 63 to 8192 (thorough 70000) bytes",
        outside="output that does not end in a line break; output while candidates are listed is checked for the line only",
        groups=[G("sess", "LongOut", dict(sizes=22), dict(), reach=["done"]),
            G("sess", "Out", dict(writes=1), dict(writes=2, widths=3), reach=["below", "done", "failed", "over", "password", "title"], deep_time=600),
            G("sess", "OutRace", dict(preempt=1), dict(preempt=2), variant="sync", reach=["below", "done", "ended"], deep_time=1500),
            G("sess", "OutRace", dict(preempt=2, writers=1, keys=3), dict(preempt=3, writers=1, keys=3), variant="sync", reach=["below", "done"], deep_time=900),
        ]),
    "R02": dict(
        bounds="widths: every rune, strings of up to 3 (thorough 4) runes; colour filtering: every text of up to 5 (thorough 7) runes; rows: width 2..7, start column inside the row, up to 4 (thorough 6) characters of any width class; line count: widths 1..120, every promptless length",
        groups=[
            G("rn", "Width", reach=["done"]),
            G("rn", "Widths", dict(n=3), dict(n=4), reach=["done"]),
            G("rn", "Color", dict(n=5), dict(n=7), reach=["open", "removed", "kept"]),
            G("rn", "Rows", dict(w=6, n=4), dict(w=8, n=5), reach=["done"]),
            G("rn", "LineCount", dict(w=120), reach=["done"]),
        ]),
    "R04": dict(
        bounds="slices of up to 5 (thorough 7) arbitrary runes, patterns of up to 3 (thorough 4; case-folding search: quick 4 and 2), 3 candidates of up to 3 (thorough 4) runes and 6 of 1 (thorough 2)",
        groups=[
            G("rn", "Search", dict(n=5, m=3), dict(n=7, m=4), reach=["none", "found"]),
            G("rn", "SearchFold", dict(n=4, m=2), dict(n=6, m=4), reach=["none", "found"]),
            G("rn", "EqRune", reach=["done"]),
            G("rn", "Equality", dict(n=4), dict(n=6), reach=["true", "false"]),
            G("rn", "Aggregate", dict(k=3, n=3), dict(k=3, n=4), reach=["common", "nothing common"]),
            G("rn", "Aggregate", dict(k=6, n=1), dict(k=6, n=2), reach=["common", "nothing common"]),
            G("rn", "Small", dict(n=4), dict(n=6), reach=["done"]),
            G("rn", "WordBreak", reach=["done"]),
        ]),
    "C01": dict(
        bounds="trees of depth 1 with up to 2 (thorough 3) names of up to 2 runes (fixed or dynamic) and of depth 2 with up to 2 single-rune names per level, built from literals, PcItem and SetChildren or an application's own type; pictures of trees of depth 2 (thorough 3); lines of up to 3 and 4 (thorough 3 and 5) runes, every cursor position",
        outside="siblings with equal names, names containing blanks",
        groups=[
            G("comp", "Prefix", dict(width=2, name=2, n=3), dict(width=3, name=2, n=3), reach=["offered", "several", "nothing"]),
            G("comp", "PrefixDeep", dict(width=2, name=1, n=4), dict(width=2, name=1, n=5, dyn=1), reach=["offered", "second level"]),
            G("comp", "Prefix", dict(width=2, name=1, n=3, made=3), dict(width=2, name=2, n=3, made=3), reach=["offered", "several", "nothing"]),
            G("comp", "PrefixDeep", dict(width=2, name=1, n=3, made=3), dict(width=2, name=1, n=4, made=3), reach=["offered", "second level"]),
            G("comp", "Tree", dict(depth=2), dict(depth=3), reach=["done"], deep_time=300),
            G("comp", "PrefixDeep", dict(width=1, name=1, n=4, deepdyn=1), dict(width=1, name=1, n=5, dyn=1, deepdyn=1), reach=["offered", "second level", "dynamic"]),
        ]),
    "C02": dict(
        bounds="lines of up to 5 (thorough 7) runes for splitting; lines of up to 3 (thorough 4) runes with 2 candidates of up to 2 (thorough 3) runes for filtering",
        groups=[
            G("comp", "Split", dict(n=5), dict(n=7), reach=["done", "several"]),
            G("comp", "Segment", dict(n=3, k=2, len=2), dict(n=4, k=3, len=3), reach=["offered", "done"]),
        ]),
    "K01": dict(
        bounds="up to 2 lines of up to 2 characters from each of the 4 UTF-8 lengths (thorough 2 lines of 3 characters), delivered in one read, byte by byte or split at any one place, with or without reads interrupted by a signal (before, or with data), typed ahead or not, last line cut off or not; default lines of up to 3 (thorough 4) characters; lines and passwords of 63 to 513 (thorough 2048) characters in pieces of 3 (thorough 5) sizes",
        groups=[G("sess", "LongType", dict(sizes=12, pieces=3), dict(sizes=17), reach=["done"], deep_time=900),
            G("sess", "Lines", dict(lines=1, n=2, classes=4), dict(lines=2, n=2, classes=4), reach=["done", "cut off"], deep_time=400),
            G("sess", "Lines", dict(lines=2, n=2, classes=1), dict(lines=3, n=2, classes=1), reach=["done", "cut off"], deep_time=400),
            G("sess", "Default", dict(n=3), dict(n=4), reach=["done"]),
        ]),
    "K02": dict(
        bounds="emacs mode; lines of up to 2 (thorough 3) characters; CSI with up to 3 (thorough 4) digits and semicolons and any final byte, SS3 with up to 1 (thorough 3) such characters and any final byte, documented Meta keys; up to 3 (thorough 5) up and down keys in each form in a history of two entries; up to 2 (thorough 3) cursor position reports with numbers of 1 (thorough 2) digits, asked for or not; delivered in one read or split at any one place, with or without a read interrupted by a signal",
        groups=[G("sess", "Escapes", dict(n=2, params=3, ss3=1), dict(n=3, params=4, ss3=3), reach=["delete", "end", "history", "home", "left", "right", "meta", "meta-t", "swallowed"], deep_time=400),
            G("sess", "Arrows", dict(n=1, keys=3), dict(n=2, keys=5), reach=["done"]),
            G("sess", "Reports", dict(reports=2, digits=1), dict(reports=3, digits=2), reach=["asked", "done"]),
        ]),
    "K03": dict(
        bounds="lines of up to 2 (thorough 4) characters, any cursor position, every way to end a read, with and without UniqueEditLine, custom prompts, screen output, a NUL typed before, through Readline or Line; then another read and two at end of input; Enter and end of input in each of 14 editor modes, 5 lines, terminal widths 10, 3 (thorough also 0, 1, -1)",
        groups=[G("sess", "Results", dict(n=2), dict(n=4), reach=["ctrl-d", "delete", "done", "enter", "eof", "interrupt"]),
            G("sess", "ResultsMode", dict(widths=2), dict(widths=5), reach=["enter", "eof", "history", "list", "plain", "search back", "search forward", "search found", "single", "vim c", "vim d", "vim f", "vim insert", "vim normal", "vim r"]),
        ]),
    "K04": dict(
        bounds="one arbitrary key in each of 14 editor modes, 5 lines, terminal widths 10, 3, 0, 1, -1, and two arbitrary keys at width 10 on two lines (thorough: on 4 lines, two widths); 3 to 260 reads or other calls of 14 kinds in a row",
        outside="Ctrl-Z, which suspends the process",
        groups=[
            G("sess", "LongSession", reach=["done"]),
            G("sess", "Robust", dict(steps=1, widths=5), dict(steps=1, widths=5, resize=1), reach=MODES, time=60),
            G("sess", "Robust", dict(steps=2, widths=1, lines=1, history=1), dict(steps=2, widths=2, lines=4, history=2), reach=MODES, time=60, deep_time=1500),
            G("sess", "Reports", dict(reports=3, digits=1), dict(reports=4, digits=1), reach=["asked", "done"]),
        ]),
    "K05": dict(
        bounds="one (thorough two) arbitrary keys in each of 14 editor modes and 5 lines, the read ended by Enter or Ctrl-C, then another read; any 2 (thorough 3) of 11 calls, reads ended in 4 ways with and without text, in emacs and vim mode",
        outside="Ctrl-Z; what was typed ahead of the end of a line in the same read",
        groups=[
            G("sess", "Idle", dict(widths=1), dict(widths=1, steps=2, lines=2, history=1), reach=MODES, deep_time=900),
            G("sess", "IdleCalls", dict(calls=2), dict(calls=3), reach=["done", "read"], deep_time=900),
        ]),
    "N03": dict(
        bounds="any 2 (thorough 3) of: raw mode asked for or ended, output, several messages at once, a message without meaning, keys typed, the window resized, end of input; up to 2 arbitrary bytes each, arbitrary terminal flags and widths; reads of the connection whole or in threes (thorough: or ones); the connection closed, cut inside a message or sending nonsense",
        outside="terminals that fail, writes to the connection that fail",
        groups=[G("rmt", "Mirror", dict(), dict(steps=3, sizes=3, types=6), variant="shim", reach=["done", "raw"], deep_time=900)]),
    "N04": dict(
        bounds="2 clients with any 2 (thorough 3) events, each greeting properly (at once or late), not at all, with nonsense or breaking off; with proper greetings 4 (thorough 5) events; 3 clients with 2 events; events: an arbitrary of 3 keys, Enter, recalling the last line, output of the application, three ways the connection ends, Ctrl-C, Close; DialRemote with up to 2 arbitrary bytes, any width and local flags",
        outside="connections whose writes fail",
        groups=[
            G("rmt", "Listen", dict(steps=2), dict(steps=3, terminals=1, vims=2), variant="shim", reach=["done", "session"], deep_time=900),
            G("rmt", "Listen", dict(steps=4, lates=1, greetings=1, ends=1, quits=1), dict(steps=5, lates=1, greetings=1, ends=1), variant="shim", reach=["done", "session"], time=60, deep_time=900),
            G("rmt", "Listen", dict(steps=2, clients=3, lates=1, greetings=1), dict(steps=2, clients=3), variant="shim", reach=["done", "session"], deep_time=900),
            G("rmt", "Listen", dict(steps=1, lates=1, greetings=1, preempt=1), dict(steps=2, lates=1, greetings=1, preempt=1), variant="shim_sync", reach=["done", "session"], deep_time=900),
            G("rmt", "ListenErr", variant="shim", reach=["done"]),
            G("rmt", "Dial", variant="shim", reach=["done", "refused"]),
        ]),
    "S01": dict(
        bounds="prefilled and real input of up to 2 (thorough 3) writes of up to 3 (thorough 4) arbitrary bytes and one of 120 bytes, read buffers of 1, 2, 3, 100 and 4096 bytes; one prefill racing a read with up to 2 (thorough 3) delays placed before any statement of std.go; device errors at any read; in sessions, twice up to 2 (thorough 3) arbitrary printable bytes in one or two writes, with or without Enter, before a line, a line with a default or a password, typed ahead or later, after a change of the configuration",
        groups=[
            G("stdin", "Fill", dict(big=120), dict(big=120, n=4, writes=3), reach=["big", "done"]),
            G("stdin", "FillRace", dict(preempt=2), dict(preempt=3), variant="every_std", reach=["after", "during", "done"]),
            G("stdin", "FillBlocked", dict(preempt=2), dict(preempt=4), variant="every_std", reach=["done"]),
            G("sess", "Prefill", dict(rounds=2), dict(rounds=2, len=3), reach=["default", "done", "line", "password"], deep_time=600),
            G("sess", "PrefillOrder", reach=["done"]),
        ]),
    "S02": dict(
        bounds="input scripts of up to 3 reads of up to 2 arbitrary bytes with or without errors; up to 2 (thorough 4) delays placed before any statement of std.go",
        groups=[
            G("stdin", "Cancel", dict(preempt=2), dict(preempt=3), variant="every_std", reach=["done"]),
            G("stdin", "CancelClose", dict(preempt=2), dict(preempt=4), variant="every_std", reach=["pending", "done"]),
            G("stdin", "CancelMany", dict(preempt=2), dict(preempt=4), variant="every_std", reach=["done"]),
            G("stdin", "FillClose", dict(preempt=2), dict(preempt=4), variant="every_std", reach=["done"]),
            G("stdin", "Nested", dict(preempt=2), dict(preempt=4), variant="every_std", reach=["done"]),
        ]),
    "N01": dict(
        bounds="up to 2 (thorough 3) messages with up to 3 (thorough 4) arbitrary data bytes, one of 70000 bytes; every malformed stream of up to 9 (thorough 11) arbitrary bytes; the handshake from every stream of two messages with up to 3 data bytes; up to 1 (thorough 2) delays before any statement of remote.go",
        outside="the memory allocator's behaviour on the claimed length, beyond the bytes that arrive",
        groups=[
            G("rmt", "RoundTrip", dict(), dict(n=4), reach=["done"]),
            G("rmt", "Malformed", dict(), dict(n=11), reach=["error", "message"], max_conc=600),
            G("rmt", "Big", dict(sizes=9), reach=["done"]),
            G("rmt", "Report", reach=["done", "short"]),
            G("rmt", "Init", reach=["accepted", "refused", "short"]),
            G("rmt", "SrvWrite", dict(preempt=1), dict(preempt=2), variant="every_std", reach=["data", "done"]),
        ]),
    "N02": dict(
        bounds="up to 2 messages with up to 2 (thorough 3) arbitrary data bytes, split reads, connection ended cleanly, by end of file message, or inside a message; one or two readers; up to 2 (thorough 4) delays before any statement of remote.go (whole sessions: 1, thorough 2)",
        groups=[
            G("rmt", "Server", dict(n=2, preempt=0), dict(n=3, preempt=1), variant="every_std", reach=["done"]),
            G("rmt", "ReadWake", dict(preempt=2), dict(preempt=4), variant="every_std", reach=["done"]),
            G("rmt", "ReadEOF", dict(preempt=2), dict(preempt=3), variant="every_std", reach=["done", "two readers"]),
            G("rmt", "CloseReleases", dict(preempt=2), dict(preempt=3), variant="every_std", reach=["done"]),
            G("rmt", "ClientRace", dict(preempt=2), dict(preempt=4), variant="every_std", reach=["done"]),
            G("rmt", "Remote", dict(preempt=1), dict(preempt=2), variant="every_std", reach=["done"]),
        ]),
    "H01": dict(
        bounds="history limits 500, 2, 1, -1; up to 3 earlier entries of one arbitrary character; 2 reads of up to 2 (thorough 3) keys (character, backspace, Ctrl-P, Ctrl-N) ended by Enter or Ctrl-C, with saving, resetting, disabling, enabling in between, with automatic saving on and off; vim: 3 (thorough 5) commands among x 0 dd k j; then a walk through all entries both ways; 499 to 501 (thorough up to 1001) entries with limit 500 (thorough also 100)",
        outside="SaveHistory called while a read is in progress",
        groups=[G("sess", "LongHist", dict(many=1, ns=3, limits=1), dict(many=1, limits=3), variant="shim", reach=["done"], deep_time=900),
            G("sess", "History", dict(limits=1, auto=1, api=5, keys=2, seed=1), dict(limits=1, auto=1, api=5, keys=3, seed=1), reach=["done", "save", "reset", "disable"], deep_time=600),
            G("sess", "History", dict(limits=4, auto=1, api=1, keys=2, seed=3, reads=1, unique=2), dict(limits=4, auto=1, api=1, keys=3, seed=3, reads=2), reach=["done"], deep_time=600),
            G("sess", "History", dict(limits=1, auto=2, api=2, keys=1, seed=1), dict(limits=1, auto=2, api=5, keys=2, seed=1), reach=["done", "save"], deep_time=400),
            G("sess", "HistVim", dict(keys=3), dict(keys=5), reach=["done"]),
        ]),
    "H04": dict(
        bounds="histories of up to 2 entries of 1 character or one entry of up to 3 arbitrary ASCII characters, an optional typed line and recalled entry; up to 2 or 3 search keys (pattern characters, Ctrl-R, Ctrl-S, Backspace; 3 (thorough 4) over one entry (two entries) of up to 3 letters a and b), left by Enter, Ctrl-G, Ctrl-C, an editing key or Ctrl-P; with and without case folding; then a walk through all entries",
        groups=[
            G("sess", "Search", dict(entries=2, len=1, keys=2, typed=0), dict(entries=2, len=2, keys=2, typed=1), reach=["accept", "cancel", "done", "edit", "found", "not found"], deep_time=900),
            G("sess", "Search", dict(entries=1, len=3, keys=1, typed=0), dict(entries=1, len=3, keys=2, typed=1), reach=["accept", "cancel", "done", "edit", "found", "not found"], deep_time=600),
            G("sess", "Search", {"entries": 1, "len": 3, "keys": 3, "typed": 0, "from": 97, "to": 98, "folds": 1, "recalls": 1, "ends": 1},
              {"entries": 2, "len": 3, "keys": 4, "typed": 0, "from": 97, "to": 98, "folds": 1, "recalls": 1, "ends": 1}, reach=["accept", "done", "found", "not found"], deep_time=900),
            G("sess", "Search", dict(entries=1, len=1, keys=3, typed=0), dict(entries=1, len=2, keys=3, typed=1), reach=["accept", "cancel", "done", "edit", "found", "not found"], deep_time=900),
        ]),
    "V01": dict(
        bounds="lines of up to 3 (thorough 4) arbitrary runes, every cursor position, one command of each kind with every argument, unknown commands of any rune; two commands on lines of 1 (thorough 3) runes; left by i, Enter, Ctrl-J, Ctrl-C",
        outside="the mode after c with an unknown argument, Ctrl-Z",
        groups=[
            G("sess", "Vim", dict(n=3), dict(n=4), reach=["$", "0", "A", "B", "E", "F", "I", "S", "T", "W", "^", "a", "b", "c", "d", "done", "e", "f", "h", "i", "l", "p", "r", "s", "t", "unknown", "w", "x"]),
            G("sess", "Vim", dict(n=1, cmds=2, ends=1, few=1), dict(n=2, cmds=2, ends=1), reach=["done"], deep_time=900),
            G("sess", "VimInsert", dict(n=3), dict(n=5), reach=["done", "off"]),
        ]),
    "C03": dict(
        bounds="up to 2 candidates of up to 2 characters or 5 fixed candidates, offset up to the length of the line, one arbitrary key (or up to 3, thorough 4, of the selection's) after the list, in emacs and vim mode; 3 symbolic words narrowed by up to 2 (thorough 3) typed characters; 30 and 100 (thorough 257) candidates with up to 2 (thorough 3) keys of the selection",
        groups=[G("sess", "LongSelect", dict(keys=2), dict(keys=3, ks=3, widths=4), reach=["done"], deep_time=400),
            G("sess", "Complete", dict(n=1, vim=1, widths=1, k=2, len=2, keys=1), dict(n=2, vim=1, widths=1, k=2, len=2, keys=1), reach=["single", "common", "listed", "done"], deep_time=600),
            G("sess", "Complete", dict(n=0, k=5, fixed=1, vim=1, keys=3, offs=1, widths=4), dict(n=0, k=5, fixed=1, vim=1, keys=4, offs=1, widths=4), reach=["listed", "selected", "cancelled", "done"], deep_time=600),
            G("sess", "Complete", dict(n=1, k=3, len=1, vim=1, widths=1, keys=0, offs=1), dict(n=1, k=3, len=2, vim=1, widths=1, keys=0, offs=1), reach=["listed", "done"], deep_time=400),
            G("sess", "Complete", dict(n=1, k=2, len=1, vim=2, widths=1, keys=1, offs=1), dict(n=1, k=2, len=1, vim=2, widths=2, keys=2, offs=1), reach=["listed", "done"], deep_time=400),
            G("sess", "Narrow", dict(typed=2), dict(typed=3, vim=2), reach=["done", "erased", "nothing", "one", "selecting", "several"], deep_time=400),
            G("sess", "TabDefault", reach=["done"]),
        ]),
    "P01": dict(
        bounds="pairs of masked lines made of up to 1 (thorough 2) arbitrary keys of 12 kinds; 3 ways to ask, 2 widths, 3 masks, 3 ways to end",
        outside="keys whose effect depends on the characters of the line: word motions, word deletion",
        groups=[
            G("sess", "Mask", dict(k=1, ctl=1), dict(k=2, ctl=1), reach=["done", "entered"], deep_time=900),
            G("sess", "Mask", dict(k=2, ends=1, few=1, hows=2), dict(k=3, ends=1, few=1), reach=["done", "entered"], deep_time=900),
            G("sess", "MaskDefault", dict(n=3, k=1), dict(n=4, k=2), reach=["done"], deep_time=400),
        ]),
    "P02": dict(
        bounds="passwords of up to 1 (thorough 2) arbitrary characters, three ways to ask, 5 ways to end, 4 sessions before; then two reads with a yank, Tab, history keys and a search",
        groups=[G("sess", "Password", dict(n=1), dict(n=2), reach=["done"]),
                G("sess", "PassAgain", reach=["done"])]),
    "P03": dict(
        bounds="first configurations of 3 (thorough 6) kinds, another one new or cloned which differs in one of 15 settings; two lines before, five lines in each configuration with every ASCII (thorough: every) character, search, history, Tab and Ctrl-C; terminal or not, resized in between or not; one of 6 settings changed between reads; two (thorough three) configurations with the same, different or no history files and 4 (thorough 5) of: another configuration set, a line typed or recalled, a password, another history path",
        outside="changes while a line is read, two settings at once beyond the first configuration's",
        groups=[G("sess", "Switch", dict(firsts=3, ends=1), dict(firsts=6, ends=2, ascii=0), reach=["done"], deep_time=900),
                G("sess", "Configs", dict(), dict(configs=3, steps=5), variant="shim", reach=["done"], deep_time=900),
                G("sess", "Setter", dict(), dict(ascii=0), reach=["done"])]),
    "P04": dict(
        bounds="two sessions of different prompts, widths, completers, history limits and histories (second one also in vim mode); 2 (thorough 3) keystrokes of 12 (one an arbitrary letter p to v), or 3 (thorough 4) of 6 about searching, completion, cutting and vim commands, to either in any order, then a yank, a line and the last entry in both",
        outside="window size changes with several sessions sharing the default hook (only the newest is told), two sessions on one terminal or one history file (H02)",
        groups=[G("sess", "Two", dict(steps=2), dict(steps=3), reach=["done"], deep_time=900),
                G("sess", "Two", dict(steps=3, set=1), dict(steps=4, set=1), reach=["done"], deep_time=900),
                G("sess", "Two", dict(steps=3, set=2), dict(steps=4, set=2), reach=["done"], deep_time=900),
                G("sess", "Two", dict(steps=3, set=3, keys=6), dict(steps=4, set=3), reach=["done"], deep_time=900),
                G("sess", "Two", dict(steps=2, set=4, vim=1), dict(steps=4, set=4, vim=1), reach=["done"], deep_time=900)]),
    "G01": dict(
        bounds="any 3 (thorough 4) of: a line typed, recalled, completed or interrupted, an entry added, one of two history files or none set, one of two completers set, a password; arbitrary ASCII characters",
        outside="entries from before a change of the history path; calls at the same time",
        groups=[G("term", "Global", dict(calls=3), dict(calls=4), variant="shim", reach=["completer", "done", "history", "line", "no path", "password", "path"], deep_time=900)]),
    "H02": dict(
        bounds="history files of up to 3 lines of 5 kinds (one arbitrary character, empty, blank, surrounded by blanks, wide), finished or not, with or without a leftover temporary file; limits 500, 2, 1, -1; up to 2 of: a line read, a line saved, reset, a password, another path; two instances one after the other and a third; two instances at once; entries of 63 to 1025 (thorough 8192) characters, in the file up to 70000 (thorough 130000); 499 to 501 (thorough up to 1001) entries with limit 500 or the default (thorough also 100, 1000, 3)",
        outside="entries with line breaks, compaction while another instance has the file open, invalid UTF-8",
        groups=[G("sess", "LongFile", dict(sizes=4), dict(sizes=5), variant="shim", reach=["done"], max_steps=20000000),
            G("sess", "LongHist", dict(sizes=16, limits=1), dict(sizes=20), variant="shim", reach=["done"], max_steps=20000000, deep_time=900),
            G("sess", "LongHist", dict(many=1, ns=3, limits=2), dict(many=1, limits=5), variant="shim", reach=["done"], deep_time=900),
            G("sess", "HistFile", dict(runs=1, lines=2), dict(runs=1, lines=3), variant="shim", reach=["done"], deep_time=600),
            G("sess", "HistFile", dict(runs=1, hows=5, other=1, lines=1, forms=1, limits=3), dict(runs=1, hows=5, other=1, lines=2, forms=2, limits=3, submit=3), variant="shim", reach=["done", "other"], deep_time=600),
            G("sess", "HistFile", dict(runs=2, lines=1, forms=2, limits=3, submit=1), dict(runs=2, lines=2, forms=3, limits=4, submit=2), variant="shim", reach=["done"], deep_time=600),
            G("sess", "HistFile", dict(runs=1, lines=1, forms=5, submit=0, chunk=1), dict(runs=1, lines=2, forms=5, submit=1, chunk=1), variant="shim", reach=["done"], deep_time=300),
            G("sess", "HistTwo", dict(), dict(n=5), variant="shim", reach=["done"]),
        ]),
    "H03": dict(
        bounds="history files of up to 3 lines (one arbitrary character or empty; thorough 5 kinds), finished or not; limits 2, 1, 500; two lines submitted; a crash before any file operation and within any write; any one of the first 12 file operations, or all from it on, fail with an error after 0 to 3 or 5 bytes; files of 7500 bytes",
        outside="loss of what the kernel had accepted (power failure)",
        groups=[
            G("sess", "Crash", dict(), dict(forms=5, submit=3), variant="shim", reach=["done"], deep_time=300),
            G("sess", "FileFault", dict(), dict(forms=5, submit=3, ops=16, short=8), variant="shim", time=120, reach=["close", "done", "open", "read", "rename", "write"], deep_time=900),
            G("sess", "HistBig", variant="shim", reach=["done"]),
        ]),
    "T01": dict(
        bounds="every termios state of one terminal; any one terminal operation failing; sequences of up to 4 (thorough 6) of entering and leaving raw mode; passwords of 0 to 33 bytes with arbitrary bytes where reads are cut, end of file, read errors; sessions of up to 2 (thorough 3) reads of 4 kinds ended by Enter, Ctrl-C, end of file or Close",
        outside="job control (T02), other systems than Linux; several instances at once sharing the default window size hook (only the newest is told)",
        groups=[
            G("term", "Raw", variant="shim", reach=["done", "failed"]),
            G("term", "Mode", dict(), dict(steps=6), variant="shim", reach=["changed", "done", "raw"]),
            G("term", "Password", variant="shim", reach=["done", "failed", "not restored", "read error"]),
            G("term", "Size", variant="shim", reach=["done"]),
            G("term", "Session", dict(), dict(reads=3), variant="shim", reach=["done"]),
            G("term", "Winch", dict(sessions=1), variant="shim", reach=["done"]),
        ]),
    "T02": dict(
        bounds="lines of up to 1 (thorough 2) characters, one of them arbitrary narrow or wide, and 10 more, cursor at or before the end; 7 states (plain, search, candidates listed, candidate selected, after a key sequence, vim insert mode, password); 2 prompts (thorough 3), 2 widths; twice in a row; up to 3 times up to 50 ms not resumed (before the first, thorough every one), then 1 to 1000 s; Close or a signal to exit while stopped or at the moment it goes on, of a line or password, with up to 1 (thorough 2) delays placed before any statement that synchronizes",
        outside="vim normal mode; what the system does with the stopped process",
        groups=[
            G("sess", "Suspend", dict(n=1, ticks=3, prompts=2), dict(n=2, ticks=3, ticks2=3, prompts=1), variant="shim", reach=["done"], deep_time=600),
            G("sess", "SuspendClose", dict(preempt=1), dict(preempt=2), variant="shim_sync", reach=["done"], deep_time=900),
        ]),
    "L01": dict(
        bounds="Close at three moments (before the read, during, after up to 4 typed keys) of a Readline or ReadPassword in emacs and vim mode, with 11 key sequences, called once or twice at once, from callbacks, or after a switch of the configuration; after 3 to 260 reads or other calls of 14 kinds; up to 1 (thorough 2) delays, on 3 key sequences 2 (thorough 3), placed before any statement that synchronizes",
        outside="an input whose Close does not release a pending Read",
        groups=[
            G("sess", "CloseAny", dict(preempt=1), dict(preempt=2), variant="sync", reach=["done"], deep_time=900),
            G("sess", "CloseAny", dict(preempt=2, keys=3, hows=1, vims=1, extra=2), dict(preempt=3, keys=3, hows=1, vims=1, extra=2), variant="sync", reach=["done"], deep_time=900),
            G("sess", "CloseInside", dict(preempt=2), dict(preempt=3), variant="sync", reach=["closed", "done"], deep_time=400),
            G("sess", "CloseConfig", dict(preempt=2), dict(preempt=3), variant="sync", reach=["done"], deep_time=400),
            G("sess", "LongSession", reach=["done"]),
        ]),
    "L03": dict(
        bounds="both signals in each of 14 editor modes, 5 lines, terminal widths 10, 3, 0, with and without history, after up to 1 (thorough 2) other arbitrary signals, once or twice; one delay before any statement that synchronizes (in each mode on an empty line; before, at and during a read or password with three kinds of keys typed ahead)",
        outside="signals when nobody captures them",
        groups=[
            G("sess", "ExitSignal", dict(), dict(others=3, widths=5), variant="shim", reach=MODES, deep_time=600),
            G("sess", "ExitSignal", dict(preempt=1, lines=1, widths=1, history=1, others=1), dict(preempt=1, lines=5, widths=1, history=1, others=1), variant="shim_sync", reach=MODES, deep_time=900),
            G("sess", "ExitIdle", dict(preempt=1), dict(preempt=2), variant="shim_sync", reach=["done"], deep_time=900),
        ]),
    "L02": dict(
        bounds="up to 2 (thorough 3) documented keys with the listener replacing the line by any of up to 2 characters at any of them, in searches and while candidates are shown; 10 keys, three of which a filter drops or turns into any of 17 keys, in emacs and vim mode; 6 kinds of painters over 3 (thorough 4) keys",
        outside="keys handled in vim normal mode and in the selection of candidates do not reach the listener",
        groups=[
            G("sess", "Listen", dict(keys=2, m=1), dict(keys=3, m=2), reach=["done", "replaced"], deep_time=900),
            G("sess", "ListenMode", reach=["done", "search", "complete"]),
            G("sess", "Filter", reach=["done"]),
            G("sess", "Paint", dict(n=3), dict(n=4), reach=["done"]),
        ]),
    "W01": dict(
        bounds="up to 3 (thorough 4) arbitrary bytes, alone or after ESC [, split in two anywhere, with a console which answers or not; texts of up to 2 (thorough 3) items, each an arbitrary character, a lone escape character, or any of the known sequences with arbitrary counts of up to 3 digits and arbitrary cursor positions, as one write or one each; erasing on consoles 1, 80, 120, 255 and 32767 wide and of any height",
        outside="a character split over two writes; sequences with other final characters; combinations of more than two colours",
        groups=[
            G("win", "Any", dict(n=3), dict(n=4), variant="windows", reach=["done"], deep_time=600),
            G("win", "Text", dict(items=2), dict(items=3), variant="windows", reach=["attr", "color", "cursor", "done", "end", "escape", "reset", "row", "text", "title"], deep_time=900),
            G("win", "Text", dict(items=1, sizes=1), dict(items=2, sizes=1), variant="windows", reach=["done", "end", "row"]),
        ]),
    "W02": dict(
        bounds="up to 2 (thorough 3) keys, each an arbitrary character of the basic plane, an arrow, or up to two characters with Alt or Ctrl held, with events to ignore before each",
        outside="characters which Windows sends as two records, other keys",
        groups=[
            G("win", "Keys", dict(keys=2), dict(keys=3), variant="windows", reach=["alt", "arrow", "character", "ctrl", "done"], deep_time=600),
        ]),
}
