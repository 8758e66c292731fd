From 5e66941b07531df904052db60158bdd3d05fc222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:37 +0000
Subject: [PATCH 01/67] fix: replacing a character at the end of the line must
 not panic

---
 runebuf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runebuf.go b/runebuf.go
index d95df1e..7b3b7c7 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -187,6 +187,9 @@ func (r *RuneBuffer) IsCursorInEnd() bool {
 
 func (r *RuneBuffer) Replace(ch rune) {
 	r.Refresh(func() {
+		if r.idx == len(r.buf) {
+			return
+		}
 		r.buf[r.idx] = ch
 	})
 }
-- 
2.43.0


From 6adcd1d162a7b2ca72fd6417e16199af37645010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:37 +0000
Subject: [PATCH 02/67] fix: moving to the end of a word from the last
 character must not panic

---
 runebuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index 7b3b7c7..347f965 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -314,7 +314,7 @@ func (r *RuneBuffer) MoveToEndWord() {
 			return
 		}
 		// if we are at the end of a word already, go to next
-		if !IsWordBreak(r.buf[r.idx]) && IsWordBreak(r.buf[r.idx+1]) {
+		if r.idx+1 < len(r.buf) && !IsWordBreak(r.buf[r.idx]) && IsWordBreak(r.buf[r.idx+1]) {
 			r.idx++
 		}
 
-- 
2.43.0


From e3c4679e8f43956048fe5329119028f86c9f40ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:37 +0000
Subject: [PATCH 03/67] fix: transposing a one character line must keep the
 cursor inside the line

---
 runebuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index 347f965..2a6562a 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -277,7 +277,7 @@ func (r *RuneBuffer) Kill() {
 func (r *RuneBuffer) Transpose() {
 	r.Refresh(func() {
 		if len(r.buf) == 1 {
-			r.idx++
+			r.idx = 1
 		}
 
 		if len(r.buf) < 2 {
-- 
2.43.0


From 0f07f3b919ae4e70175c72e4edfbbae835d8d094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:38 +0000
Subject: [PATCH 04/67] fix: cutting back over the first word must keep the
 text after the cursor

---
 runebuf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index 2a6562a..6aa088f 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -343,7 +343,8 @@ func (r *RuneBuffer) BackEscapeWord() {
 			}
 		}
 
-		r.buf = r.buf[:0]
+		r.pushKill(r.buf[:r.idx])
+		r.buf = append(r.buf[:0], r.buf[r.idx:]...)
 		r.idx = 0
 	})
 }
-- 
2.43.0


From 1c78ab7b9e97aafa16bc6f60edad0b97101094d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:38 +0000
Subject: [PATCH 05/67] fix: a line backup must not share memory with the line
 being edited

---
 runebuf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runebuf.go b/runebuf.go
index 6aa088f..0bcc4f0 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -47,7 +47,7 @@ func (r *RuneBuffer) OnWidthChange(newWidth int) {
 
 func (r *RuneBuffer) Backup() {
 	r.Lock()
-	r.bck = &runeBufferBck{r.buf, r.idx}
+	r.bck = &runeBufferBck{runes.Copy(r.buf), r.idx}
 	r.Unlock()
 }
 
@@ -56,7 +56,7 @@ func (r *RuneBuffer) Restore() {
 		if r.bck == nil {
 			return
 		}
-		r.buf = r.bck.buf
+		r.buf = runes.Copy(r.bck.buf)
 		r.idx = r.bck.idx
 	})
 }
-- 
2.43.0


From ba46ce19da0f8cd230abf7afbdbe79b16de9a474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:39 +0000
Subject: [PATCH 06/67] fix: the line buffer must not write into slices owned
 by its callers

---
 runebuf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runebuf.go b/runebuf.go
index 0bcc4f0..5a6a0b2 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -164,7 +164,7 @@ func (r *RuneBuffer) WriteRune(s rune) {
 
 func (r *RuneBuffer) WriteRunes(s []rune) {
 	r.Refresh(func() {
-		tail := append(s, r.buf[r.idx:]...)
+		tail := append(runes.Copy(s), r.buf[r.idx:]...)
 		r.buf = append(r.buf[:r.idx], tail...)
 		r.idx += len(s)
 	})
@@ -577,7 +577,7 @@ func (r *RuneBuffer) SetStyle(start, end int, style string) {
 
 func (r *RuneBuffer) SetWithIdx(idx int, buf []rune) {
 	r.Refresh(func() {
-		r.buf = buf
+		r.buf = runes.Copy(buf)
 		r.idx = idx
 	})
 }
-- 
2.43.0


From dcb244ce3d62898d305f371ac7789885c1f1bb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:06 +0000
Subject: [PATCH 07/67] fix: filtering colours must not panic on a text that
 ends in an escape

---
 runes.go       | 2 +-
 runes/runes.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/runes.go b/runes.go
index a669bc4..a6fb97c 100644
--- a/runes.go
+++ b/runes.go
@@ -116,7 +116,7 @@ func (Runes) Index(r rune, rs []rune) int {
 func (Runes) ColorFilter(r []rune) []rune {
 	newr := make([]rune, 0, len(r))
 	for pos := 0; pos < len(r); pos++ {
-		if r[pos] == '\033' && r[pos+1] == '[' {
+		if r[pos] == '\033' && pos+1 < len(r) && r[pos+1] == '[' {
 			idx := runes.Index('m', r[pos+2:])
 			if idx == -1 {
 				continue
diff --git a/runes/runes.go b/runes/runes.go
index b069440..925b09c 100644
--- a/runes/runes.go
+++ b/runes/runes.go
@@ -69,7 +69,7 @@ func Index(r rune, rs []rune) int {
 func ColorFilter(r []rune) []rune {
 	newr := make([]rune, 0, len(r))
 	for pos := 0; pos < len(r); pos++ {
-		if r[pos] == '\033' && r[pos+1] == '[' {
+		if r[pos] == '\033' && pos+1 < len(r) && r[pos+1] == '[' {
 			idx := Index('m', r[pos+2:])
 			if idx == -1 {
 				continue
-- 
2.43.0


From 66182e022ec1ee3140dcc77b089fb911816c46af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:33 +0000
Subject: [PATCH 08/67] fix: count terminal rows and columns in cells when
 drawing the line

---
 runebuf.go | 101 +++++++++++++++++++++++++++++++----------------------
 utils.go   |  37 ++++++++++++++++----
 2 files changed, 89 insertions(+), 49 deletions(-)

diff --git a/runebuf.go b/runebuf.go
index 5a6a0b2..5aadef8 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -25,6 +25,9 @@ type RuneBuffer struct {
 	cfg         *Config
 
 	width int
+	// row of the screen cursor below the start of the prompt when the line was
+	// last shown, -1 if it is not on the screen
+	cursorRow int
 
 	bck *runeBufferBck
 
@@ -42,6 +45,9 @@ func (r *RuneBuffer) pushKill(text []rune) {
 func (r *RuneBuffer) OnWidthChange(newWidth int) {
 	r.Lock()
 	r.width = newWidth
+	if r.cursorRow >= 0 {
+		r.cursorRow, _ = r.position(r.idx)
+	}
 	r.Unlock()
 }
 
@@ -67,6 +73,7 @@ func NewRuneBuffer(w io.Writer, prompt string, cfg *Config, width int) *RuneBuff
 		interactive: cfg.useInteractive(),
 		cfg:         cfg,
 		width:       width,
+		cursorRow:   -1,
 	}
 	rb.SetPrompt(prompt)
 	return rb
@@ -388,8 +395,10 @@ func (r *RuneBuffer) LineCount(width int) int {
 	if width == -1 {
 		width = r.width
 	}
-	return LineCount(width,
-		runes.WidthAll(r.buf)+r.PromptLen())
+	r.Lock()
+	defer r.Unlock()
+	row, _ := r.positionIn(len(r.buf), width)
+	return row + 1
 }
 
 func (r *RuneBuffer) MoveTo(ch rune, prevChar, reverse bool) (success bool) {
@@ -425,12 +434,33 @@ func (r *RuneBuffer) isInLineEdge() bool {
 	if isWindows {
 		return false
 	}
-	sp := r.getSplitByLine(r.buf)
-	return len(sp[len(sp)-1]) == 0
+	if n := len(r.buf); n > 0 && r.buf[n-1] == '\n' {
+		return false
+	}
+	_, col := r.position(len(r.buf))
+	return col == 0
+}
+
+// position returns the row and the column, counted from the start of the
+// prompt, of the cursor when it stands on buf[idx].
+func (r *RuneBuffer) position(idx int) (row, col int) {
+	return r.positionIn(idx, r.width)
 }
 
-func (r *RuneBuffer) getSplitByLine(rs []rune) []string {
-	return SplitByLine(r.promptLen(), r.width, rs)
+func (r *RuneBuffer) positionIn(idx, width int) (row, col int) {
+	for _, c := range runes.ColorFilter(r.prompt) {
+		row, col = advance(row, col, width, c)
+	}
+	for i, c := range r.buf {
+		if r.cfg.EnableMask && c != '\n' {
+			c = r.cfg.MaskRune
+		}
+		if i == idx {
+			return fit(row, col, width, c)
+		}
+		row, col = advance(row, col, width, c)
+	}
+	return row, col
 }
 
 func (r *RuneBuffer) IdxLine(width int) int {
@@ -443,8 +473,8 @@ func (r *RuneBuffer) idxLine(width int) int {
 	if width == 0 {
 		return 0
 	}
-	sp := r.getSplitByLine(r.buf[:r.idx])
-	return len(sp) - 1
+	row, _ := r.position(r.idx)
+	return row
 }
 
 func (r *RuneBuffer) CursorLineCount() int {
@@ -477,6 +507,7 @@ func (r *RuneBuffer) SetOffset(offset string) {
 
 func (r *RuneBuffer) print() {
 	r.w.Write(r.output())
+	r.cursorRow, _ = r.position(r.idx)
 	r.hadClean = false
 }
 
@@ -490,10 +521,6 @@ func (r *RuneBuffer) output() []byte {
 		} else {
 			buf.Write([]byte(string(r.cfg.MaskRune)))
 		}
-		if len(r.buf) > r.idx {
-			buf.Write(r.getBackspaceSequence())
-		}
-
 	} else {
 		for _, e := range r.cfg.Painter.Paint(r.buf, r.idx) {
 			if e == '\t' {
@@ -502,9 +529,9 @@ func (r *RuneBuffer) output() []byte {
 				buf.WriteRune(e)
 			}
 		}
-		if r.isInLineEdge() {
-			buf.Write([]byte(" \b"))
-		}
+	}
+	if r.isInLineEdge() {
+		buf.Write([]byte(" \b"))
 	}
 	// cursor position
 	if len(r.buf) > r.idx {
@@ -514,39 +541,24 @@ func (r *RuneBuffer) output() []byte {
 }
 
 func (r *RuneBuffer) getBackspaceSequence() []byte {
-	var sep = map[int]bool{}
-
-	var i int
-	for {
-		if i >= runes.WidthAll(r.buf) {
-			break
-		}
-
-		if i == 0 {
-			i -= r.promptLen()
-		}
-		i += r.width
-
-		sep[i] = true
+	endRow, endCol := r.position(len(r.buf))
+	row, col := r.position(r.idx)
+	if row == endRow {
+		return bytes.Repeat([]byte{'\b'}, endCol-col)
 	}
-	var buf []byte
-	for i := len(r.buf); i > r.idx; i-- {
-		// move input to the left of one
-		buf = append(buf, '\b')
-		if sep[i] {
-			// up one line, go to the start of the line and move cursor right to the end (r.width)
-			buf = append(buf, "\033[A\r"+"\033["+strconv.Itoa(r.width)+"C"...)
-		}
+	// go up to the row of the cursor and move right from its start
+	seq := "\033[" + strconv.Itoa(endRow-row) + "A\r"
+	if col > 0 {
+		seq += "\033[" + strconv.Itoa(col) + "C"
 	}
-
-	return buf
-
+	return []byte(seq)
 }
 
 func (r *RuneBuffer) Reset() []rune {
 	ret := runes.Copy(r.buf)
 	r.buf = r.buf[:0]
 	r.idx = 0
+	r.cursorRow = -1
 	return ret
 }
 
@@ -595,7 +607,7 @@ func (r *RuneBuffer) SetPrompt(prompt string) {
 func (r *RuneBuffer) cleanOutput(w io.Writer, idxLine int) {
 	buf := bufio.NewWriter(w)
 
-	if r.width == 0 {
+	if r.width <= 0 {
 		buf.WriteString(strings.Repeat("\r\b", len(r.buf)+r.promptLen()))
 		buf.Write([]byte("\033[J"))
 	} else {
@@ -621,7 +633,11 @@ func (r *RuneBuffer) Clean() {
 }
 
 func (r *RuneBuffer) clean() {
-	r.cleanWithIdxLine(r.idxLine(r.width))
+	row := r.cursorRow
+	if row < 0 {
+		row = 0
+	}
+	r.cleanWithIdxLine(row)
 }
 
 func (r *RuneBuffer) cleanWithIdxLine(idxLine int) {
@@ -629,5 +645,6 @@ func (r *RuneBuffer) cleanWithIdxLine(idxLine int) {
 		return
 	}
 	r.hadClean = true
+	r.cursorRow = -1
 	r.cleanOutput(r.w, idxLine)
 }
diff --git a/utils.go b/utils.go
index 0706dd4..7feefc7 100644
--- a/utils.go
+++ b/utils.go
@@ -212,20 +212,43 @@ func escapeKey(r rune, reader *bufio.Reader) rune {
 	return r
 }
 
+// fit returns where a terminal shows r when its cursor stands at row, col: a
+// wide character which does not fit in the row goes to the next one.
+func fit(row, col, screenWidth int, r rune) (int, int) {
+	if screenWidth > 0 && r != '\t' && col > 0 && col+runes.Width(r) > screenWidth {
+		return row + 1, 0
+	}
+	return row, col
+}
+
+// advance returns where the cursor stands after r was shown at row, col. It
+// leaves a row as soon as the row is full.
+func advance(row, col, screenWidth int, r rune) (int, int) {
+	row, col = fit(row, col, screenWidth, r)
+	col += runes.Width(r)
+	if screenWidth <= 0 {
+		return row, col
+	}
+	return row + col/screenWidth, col % screenWidth
+}
+
 func SplitByLine(start, screenWidth int, rs []rune) []string {
 	var ret []string
 	buf := bytes.NewBuffer(nil)
-	currentWidth := start
-	for _, r := range rs {
-		w := runes.Width(r)
-		currentWidth += w
-		buf.WriteRune(r)
-		if currentWidth >= screenWidth {
+	row, col := 0, start
+	flush := func(next int) {
+		for ; row < next; row++ {
 			ret = append(ret, buf.String())
 			buf.Reset()
-			currentWidth = 0
 		}
 	}
+	for _, r := range rs {
+		next, c := fit(row, col, screenWidth, r)
+		flush(next)
+		next, col = advance(row, c, screenWidth, r)
+		buf.WriteRune(r)
+		flush(next)
+	}
 	ret = append(ret, buf.String())
 	return ret
 }
-- 
2.43.0


From 32d312f77ac4890facbb28307cadc047d83ee148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:30 +0000
Subject: [PATCH 09/67] fix: segment completion must not write into the
 candidates of the application

---
 complete_segment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/complete_segment.go b/complete_segment.go
index 5ceadd8..5fe3352 100644
--- a/complete_segment.go
+++ b/complete_segment.go
@@ -76,7 +76,7 @@ func (c *SegmentComplete) Do(line []rune, pos int) (newLine [][]rune, offset int
 	cands := c.DoSegment(segment, idx)
 	newLine, offset = RetSegment(segment, cands, idx)
 	for idx := range newLine {
-		newLine[idx] = append(newLine[idx], ' ')
+		newLine[idx] = append(runes.Copy(newLine[idx]), ' ')
 	}
 	return newLine, offset
 }
-- 
2.43.0


From 7d87f087eeee0ea17b24bd892258cd651d54de0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:18 +0000
Subject: [PATCH 10/67] fix: reading again after the end of input must return
 io.EOF, not hang

---
 operation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/operation.go b/operation.go
index b60939a..91f1d01 100644
--- a/operation.go
+++ b/operation.go
@@ -25,6 +25,7 @@ type Operation struct {
 	buf     *RuneBuffer
 	outchan chan []rune
 	errchan chan error
+	done    chan struct{} // closed when no more keys will come
 	w       io.Writer
 
 	history *opHistory
@@ -73,6 +74,7 @@ func NewOperation(t *Terminal, cfg *Config) *Operation {
 		buf:     NewRuneBuffer(t, cfg.Prompt, cfg, width),
 		outchan: make(chan []rune),
 		errchan: make(chan error, 1),
+		done:    make(chan struct{}),
 	}
 	op.w = op.buf.w
 	op.SetConfig(cfg)
@@ -105,6 +107,7 @@ func (o *Operation) GetConfig() *Config {
 }
 
 func (o *Operation) ioloop() {
+	defer close(o.done)
 	for {
 		keepInSearchMode := false
 		keepInCompleteMode := false
@@ -397,6 +400,8 @@ func (o *Operation) Runes() ([]rune, error) {
 			return e.Line, ErrInterrupt
 		}
 		return nil, err
+	case <-o.done:
+		return nil, io.EOF
 	}
 }
 
-- 
2.43.0


From b35cb80d3ee489467edaad4c33041a97f842af53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:19 +0000
Subject: [PATCH 11/67] fix: keep reading when a key that may end the line did
 not

---
 operation.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/operation.go b/operation.go
index 91f1d01..e01b86e 100644
--- a/operation.go
+++ b/operation.go
@@ -26,6 +26,7 @@ type Operation struct {
 	outchan chan []rune
 	errchan chan error
 	done    chan struct{} // closed when no more keys will come
+	stopped bool          // the terminal has stopped reading after the last key
 	w       io.Writer
 
 	history *opHistory
@@ -106,18 +107,33 @@ func (o *Operation) GetConfig() *Config {
 	return &cfg
 }
 
+// readKey reads the next key. The terminal stops reading after a key which may
+// end the line, so it has to go on when that key did not.
+func (o *Operation) readKey() rune {
+	if o.stopped {
+		o.t.KickRead()
+	}
+	r := o.t.ReadRune()
+	switch r {
+	case CharInterrupt, CharEnter, CharCtrlJ, CharDelete:
+		o.stopped = true
+	default:
+		o.stopped = false
+	}
+	return r
+}
+
 func (o *Operation) ioloop() {
 	defer close(o.done)
 	for {
 		keepInSearchMode := false
 		keepInCompleteMode := false
-		r := o.t.ReadRune()
+		r := o.readKey()
 
 		if o.GetConfig().FuncFilterInputRune != nil {
 			var process bool
 			r, process = o.GetConfig().FuncFilterInputRune(r)
 			if !process {
-				o.t.KickRead()
 				o.buf.Refresh(nil) // to refresh the line
 				continue           // ignore this rune
 			}
@@ -150,16 +166,13 @@ func (o *Operation) ioloop() {
 			case CharEnter, CharCtrlJ:
 				o.history.Update(o.buf.Runes(), false)
 				fallthrough
-			case CharInterrupt:
-				o.t.KickRead()
-				fallthrough
-			case CharBell:
+			case CharInterrupt, CharBell:
 				continue
 			}
 		}
 
 		if o.IsEnableVimMode() {
-			r = o.HandleVim(r, o.t.ReadRune)
+			r = o.HandleVim(r, o.readKey)
 			if r == 0 {
 				continue
 			}
@@ -256,6 +269,7 @@ func (o *Operation) ioloop() {
 				o.buf.Clean()
 				data = o.buf.Reset()
 			}
+			o.stopped = false
 			o.outchan <- data
 			if !o.GetConfig().DisableAutoSaveHistory {
 				// ignore IO error
@@ -283,7 +297,6 @@ func (o *Operation) ioloop() {
 			}
 		case CharDelete:
 			if o.buf.Len() > 0 || !o.IsNormalMode() {
-				o.t.KickRead()
 				if !o.buf.Delete() {
 					o.t.Bell()
 				}
@@ -297,18 +310,17 @@ func (o *Operation) ioloop() {
 			o.buf.Reset()
 			isUpdateHistory = false
 			o.history.Revert()
+			o.stopped = false
 			o.errchan <- io.EOF
 			if o.GetConfig().UniqueEditLine {
 				o.buf.Clean()
 			}
 		case CharInterrupt:
 			if o.IsSearchMode() {
-				o.t.KickRead()
 				o.ExitSearchMode(true)
 				break
 			}
 			if o.IsInCompleteMode() {
-				o.t.KickRead()
 				o.ExitCompleteMode(true)
 				o.buf.Refresh(nil)
 				break
@@ -325,6 +337,7 @@ func (o *Operation) ioloop() {
 			}
 			isUpdateHistory = false
 			o.history.Revert()
+			o.stopped = false
 			o.errchan <- &InterruptError{remain}
 		default:
 			if o.IsSearchMode() {
-- 
2.43.0


From db34e1afa0e2ed99c41ba2e487091df1cb82eb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:19 +0000
Subject: [PATCH 12/67] fix: vim r followed by Esc or another control key must
 not put it into the line

---
 vim.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vim.go b/vim.go
index bedf2c1..581acf0 100644
--- a/vim.go
+++ b/vim.go
@@ -59,7 +59,9 @@ func (o *opVim) handleVimNormalMovement(r rune, readNext func() rune) (t rune, h
 			rb.MoveBackward()
 		}
 	case 'r':
-		rb.Replace(readNext())
+		if next := readNext(); IsPrintable(next) {
+			rb.Replace(next)
+		}
 	case 'd':
 		next := readNext()
 		switch next {
-- 
2.43.0


From b9882887617e414844da0256bd5c0edf85f3052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:19 +0000
Subject: [PATCH 13/67] fix: line feed must end the line in vim normal mode as
 it does in insert mode

---
 vim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vim.go b/vim.go
index 581acf0..b92b0a1 100644
--- a/vim.go
+++ b/vim.go
@@ -134,7 +134,7 @@ func (o *opVim) handleVimNormalEnterInsert(r rune, readNext func() rune) (t rune
 
 func (o *opVim) HandleVimNormal(r rune, readNext func() rune) (t rune) {
 	switch r {
-	case CharEnter, CharInterrupt:
+	case CharEnter, CharCtrlJ, CharInterrupt:
 		o.ExitVimMode()
 		return r
 	}
-- 
2.43.0


From d8350a839ca3536663baec6fad06fbe9f7054004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:20 +0000
Subject: [PATCH 14/67] fix: a NUL character must not end the input

---
 terminal.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terminal.go b/terminal.go
index 38413d0..563f0be 100644
--- a/terminal.go
+++ b/terminal.go
@@ -197,6 +197,8 @@ func (t *Terminal) ioloop() {
 
 		expectNextChar = true
 		switch r {
+		case 0:
+			// not a key, and it stands for io.EOF in ReadRune
 		case CharEsc:
 			if t.cfg.VimMode {
 				t.outchan <- r
-- 
2.43.0


From ad201dfc39f4adc899fc5f3762796c2698677bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:20 +0000
Subject: [PATCH 15/67] fix: Meta-Ctrl-T must not insert an invalid character

---
 operation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operation.go b/operation.go
index e01b86e..74903cc 100644
--- a/operation.go
+++ b/operation.go
@@ -219,6 +219,9 @@ func (o *Operation) ioloop() {
 			keepInCompleteMode = true
 		case MetaForward:
 			o.buf.MoveToNextWord()
+		case MetaTranspose:
+			// transposing words is not supported
+			o.t.Bell()
 		case CharTranspose:
 			o.buf.Transpose()
 		case MetaBackward:
-- 
2.43.0


From e66de6c7f5df11b9519ac78d02e77a7cf8de71ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:42 +0000
Subject: [PATCH 16/67] fix: leaving a history search must restore the line
 from before the search

---
 search.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/search.go b/search.go
index 52e8ff0..20fa3dd 100644
--- a/search.go
+++ b/search.go
@@ -22,6 +22,8 @@ type opSearch struct {
 	state     int
 	dir       int
 	source    *list.Element
+	line      []rune // the line before the search
+	idx       int
 	w         io.Writer
 	buf       *RuneBuffer
 	data      []rune
@@ -103,10 +105,11 @@ func (o *opSearch) SearchMode(dir int) bool {
 	alreadyInMode := o.inMode
 	o.inMode = true
 	o.dir = dir
-	o.source = o.history.current
 	if alreadyInMode {
 		o.search(false)
 	} else {
+		o.source = o.history.current
+		o.line, o.idx = o.buf.Runes(), o.buf.Pos()
 		o.SearchRefresh(-1)
 	}
 	return true
@@ -115,12 +118,12 @@ func (o *opSearch) SearchMode(dir int) bool {
 func (o *opSearch) ExitSearchMode(revert bool) {
 	if revert {
 		o.history.current = o.source
-		o.buf.Set(o.history.showItem(o.history.current.Value))
+		o.buf.SetWithIdx(o.idx, o.line)
 	}
 	o.markStart, o.markEnd = 0, 0
 	o.state = S_STATE_FOUND
 	o.inMode = false
-	o.source = nil
+	o.source, o.line = nil, nil
 	o.data = nil
 }
 
-- 
2.43.0


From cc7c1c66f68ae1debd379cb03cfaa0b3fe9b6714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:42 +0000
Subject: [PATCH 17/67] fix: a search must survive the terminal losing its
 width

---
 search.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/search.go b/search.go
index 20fa3dd..704dfa4 100644
--- a/search.go
+++ b/search.go
@@ -99,7 +99,7 @@ func (o *opSearch) SearchChar(r rune) {
 }
 
 func (o *opSearch) SearchMode(dir int) bool {
-	if o.width == 0 {
+	if o.width <= 0 {
 		return false
 	}
 	alreadyInMode := o.inMode
@@ -128,6 +128,9 @@ func (o *opSearch) ExitSearchMode(revert bool) {
 }
 
 func (o *opSearch) SearchRefresh(x int) {
+	if o.width <= 0 {
+		return
+	}
 	if x == -2 {
 		o.state = S_STATE_FAILING
 	} else if x >= 0 {
-- 
2.43.0


From 3d1d8a8398abc5bcf0bb96f0d64d0d664e2fab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:21 +0000
Subject: [PATCH 18/67] fix: Ctrl-K right after leaving the selection of
 candidates must not panic

---
 operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index 74903cc..d0023b2 100644
--- a/operation.go
+++ b/operation.go
@@ -216,7 +216,7 @@ func (o *Operation) ioloop() {
 			keepInSearchMode = true
 		case CharKill:
 			o.buf.Kill()
-			keepInCompleteMode = true
+			keepInCompleteMode = len(o.candidate) > 0
 		case MetaForward:
 			o.buf.MoveToNextWord()
 		case MetaTranspose:
-- 
2.43.0


From 04c824bba7733630245034969c14e4f9a4130795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:21 +0000
Subject: [PATCH 19/67] fix: listing candidates must not panic on a narrow
 terminal or after wide characters

---
 complete.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/complete.go b/complete.go
index c08c994..813cbd9 100644
--- a/complete.go
+++ b/complete.go
@@ -186,7 +186,7 @@ func (o *opCompleter) OnWidthChange(newWidth int) {
 }
 
 func (o *opCompleter) CompleteRefresh() {
-	if !o.inCompleteMode {
+	if !o.inCompleteMode || len(o.candidate) == 0 {
 		return
 	}
 	lineCnt := o.op.buf.CursorLineCount()
@@ -197,13 +197,15 @@ func (o *opCompleter) CompleteRefresh() {
 			colWidth = w
 		}
 	}
-	colWidth += o.candidateOff + 1
 	same := o.op.buf.RuneSlice(-o.candidateOff)
+	colWidth += runes.WidthAll(same) + 1
 
 	// -1 to avoid reach the end of line
 	width := o.width - 1
 	colNum := width / colWidth
-	if colNum != 0 {
+	if colNum < 1 {
+		colNum = 1
+	} else {
 		colWidth += (width - (colWidth * colNum)) / colNum
 	}
 
-- 
2.43.0


From 7e2487a8e3c7a98abf8a8b190e687f045a9e7c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:18 +0000
Subject: [PATCH 20/67] fix: prefilled input that does not fit into one read
 must not be lost

---
 std.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std.go b/std.go
index 61d44b7..da95885 100644
--- a/std.go
+++ b/std.go
@@ -180,7 +180,7 @@ func (s *FillableStdin) Read(p []byte) (n int, err error) {
 	}
 	if i > 0 {
 		n := copy(p, s.buf)
-		s.buf = s.buf[:0]
+		s.buf = s.buf[:copy(s.buf, s.buf[n:])]
 		cerr := s.bufErr
 		s.bufErr = nil
 		s.Unlock()
-- 
2.43.0


From 11f06693dd63976f3750df40a31a6935c5d5b75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:18 +0000
Subject: [PATCH 21/67] fix: WriteStdin must not return before its data can be
 read

---
 std.go | 55 ++++++++++++++++++++++++-------------------------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/std.go b/std.go
index da95885..4f51fdd 100644
--- a/std.go
+++ b/std.go
@@ -136,39 +136,32 @@ func (c *CancelableStdin) Close() error {
 // reading into the real stdin
 type FillableStdin struct {
 	sync.Mutex
-	stdin       io.Reader
-	stdinBuffer io.ReadCloser
-	buf         []byte
-	bufErr      error
+	stdin  io.Reader
+	buf    []byte
+	closed bool
+}
+
+type stdinFiller struct {
+	s *FillableStdin
+}
+
+// Write returns when the next Read will see p
+func (f *stdinFiller) Write(p []byte) (int, error) {
+	f.s.Lock()
+	defer f.s.Unlock()
+	if f.s.closed {
+		return 0, io.ErrClosedPipe
+	}
+	f.s.buf = append(f.s.buf, p...)
+	return len(p), nil
 }
 
 // NewFillableStdin gives you FillableStdin
 func NewFillableStdin(stdin io.Reader) (io.ReadCloser, io.Writer) {
-	r, w := io.Pipe()
 	s := &FillableStdin{
-		stdinBuffer: r,
-		stdin:       stdin,
+		stdin: stdin,
 	}
-	s.ioloop()
-	return s, w
-}
-
-func (s *FillableStdin) ioloop() {
-	go func() {
-		for {
-			bufR := make([]byte, 100)
-			var n int
-			n, s.bufErr = s.stdinBuffer.Read(bufR)
-			if s.bufErr != nil {
-				if s.bufErr == io.ErrClosedPipe {
-					break
-				}
-			}
-			s.Lock()
-			s.buf = append(s.buf, bufR[:n]...)
-			s.Unlock()
-		}
-	}()
+	return s, &stdinFiller{s}
 }
 
 // Read will read from the local buffer and if no data, read from stdin
@@ -181,10 +174,8 @@ func (s *FillableStdin) Read(p []byte) (n int, err error) {
 	if i > 0 {
 		n := copy(p, s.buf)
 		s.buf = s.buf[:copy(s.buf, s.buf[n:])]
-		cerr := s.bufErr
-		s.bufErr = nil
 		s.Unlock()
-		return n, cerr
+		return n, nil
 	}
 	s.Unlock()
 	n, err = s.stdin.Read(p)
@@ -192,6 +183,8 @@ func (s *FillableStdin) Read(p []byte) (n int, err error) {
 }
 
 func (s *FillableStdin) Close() error {
-	s.stdinBuffer.Close()
+	s.Lock()
+	s.closed = true
+	s.Unlock()
 	return nil
 }
-- 
2.43.0


From a08a783a5224eb2fb071b560c92458ec3b2f50e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:19 +0000
Subject: [PATCH 22/67] fix: closing the instance must release a pending read
 of the input

---
 std.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/std.go b/std.go
index 4f51fdd..7844a93 100644
--- a/std.go
+++ b/std.go
@@ -186,5 +186,8 @@ func (s *FillableStdin) Close() error {
 	s.Lock()
 	s.closed = true
 	s.Unlock()
+	if closer, ok := s.stdin.(io.Closer); ok {
+		return closer.Close()
+	}
 	return nil
 }
-- 
2.43.0


From e3fd6c15aab576307a71cfd7dda950e8cfea6158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:40 +0000
Subject: [PATCH 23/67] fix: a malformed remote message must not panic or
 allocate without limit

---
 remote.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/remote.go b/remote.go
index 74dbf56..8f5702d 100644
--- a/remote.go
+++ b/remote.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 	"net"
@@ -262,10 +263,18 @@ func ReadMessage(r io.Reader) (*Message, error) {
 	if err := binary.Read(r, binary.BigEndian, &m.Type); err != nil {
 		return nil, err
 	}
-	m.Data = make([]byte, int(length)-2)
-	if _, err := io.ReadFull(r, m.Data); err != nil {
+	if length < 2 {
+		return nil, errors.New("invalid message length")
+	}
+	// the length is not trusted: memory is taken for what really arrives
+	data := new(bytes.Buffer)
+	if _, err := io.CopyN(data, r, int64(length)-2); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return nil, err
 	}
+	m.Data = data.Bytes()
 	return m, nil
 }
 
-- 
2.43.0


From 34c8ecab5e781b512e018cd1d3b04ed786608c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:40 +0000
Subject: [PATCH 24/67] fix: a remote report that is too short must not panic

---
 remote.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/remote.go b/remote.go
index 8f5702d..f34d62a 100644
--- a/remote.go
+++ b/remote.go
@@ -229,6 +229,9 @@ func (r *RemoteSvr) readLoop(buf *bufio.Reader) {
 }
 
 func (r *RemoteSvr) GotIsTerminal(data []byte) {
+	if len(data) < 2 {
+		return
+	}
 	if binary.BigEndian.Uint16(data) == 0 {
 		r.isTerminal = false
 	} else {
@@ -237,6 +240,9 @@ func (r *RemoteSvr) GotIsTerminal(data []byte) {
 }
 
 func (r *RemoteSvr) GotReportWidth(data []byte) {
+	if len(data) < 2 {
+		return
+	}
 	atomic.StoreInt32(&r.width, int32(binary.BigEndian.Uint16(data)))
 	if r.funcWidthChan != nil {
 		r.funcWidthChan()
-- 
2.43.0


From d1ed09758f43ab5a6f23d71b67ea6a7dff7d5544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:40 +0000
Subject: [PATCH 25/67] fix: a remote read must see data, end of input and
 closing whenever they come

---
 remote.go | 52 ++++++++++++++++++++++------------------------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/remote.go b/remote.go
index f34d62a..77fb73a 100644
--- a/remote.go
+++ b/remote.go
@@ -29,7 +29,6 @@ type RemoteSvr struct {
 	eof           int32
 	closed        int32
 	width         int32
-	reciveChan    chan struct{}
 	writeChan     chan *writeCtx
 	conn          net.Conn
 	isTerminal    bool
@@ -37,6 +36,7 @@ type RemoteSvr struct {
 	stopChan      chan struct{}
 
 	dataBufM sync.Mutex
+	dataCond *sync.Cond // signalled when dataBuf, eof or closed changes
 	dataBuf  bytes.Buffer
 }
 
@@ -59,12 +59,12 @@ func newWriteCtx(msg *Message) *writeCtx {
 
 func NewRemoteSvr(conn net.Conn) (*RemoteSvr, error) {
 	rs := &RemoteSvr{
-		width:      -1,
-		conn:       conn,
-		writeChan:  make(chan *writeCtx),
-		reciveChan: make(chan struct{}),
-		stopChan:   make(chan struct{}),
+		width:     -1,
+		conn:      conn,
+		writeChan: make(chan *writeCtx),
+		stopChan:  make(chan struct{}),
 	}
+	rs.dataCond = sync.NewCond(&rs.dataBufM)
 	buf := bufio.NewReader(rs.conn)
 
 	if err := rs.init(buf); err != nil {
@@ -119,35 +119,32 @@ func (r *RemoteSvr) IsTerminal() bool {
 }
 
 func (r *RemoteSvr) checkEOF() error {
-	if atomic.LoadInt32(&r.eof) == 1 {
+	if atomic.LoadInt32(&r.eof) == 1 || atomic.LoadInt32(&r.closed) == 1 {
 		return io.EOF
 	}
 	return nil
 }
 
-func (r *RemoteSvr) Read(b []byte) (int, error) {
+// wakeReaders lets pending reads see that something has changed
+func (r *RemoteSvr) wakeReaders() {
 	r.dataBufM.Lock()
-	n, err := r.dataBuf.Read(b)
+	r.dataCond.Broadcast()
 	r.dataBufM.Unlock()
-	if n == 0 {
-		if err := r.checkEOF(); err != nil {
-			return 0, err
-		}
-	}
+}
 
-	if n == 0 && err == io.EOF {
-		<-r.reciveChan
-		r.dataBufM.Lock()
-		n, err = r.dataBuf.Read(b)
-		r.dataBufM.Unlock()
+func (r *RemoteSvr) Read(b []byte) (int, error) {
+	if len(b) == 0 {
+		return 0, nil
 	}
-	if n == 0 {
+	r.dataBufM.Lock()
+	defer r.dataBufM.Unlock()
+	for r.dataBuf.Len() == 0 {
 		if err := r.checkEOF(); err != nil {
 			return 0, err
 		}
+		r.dataCond.Wait()
 	}
-
-	return n, err
+	return r.dataBuf.Read(b)
 }
 
 func (r *RemoteSvr) writeMsg(m *Message) error {
@@ -194,6 +191,7 @@ func (r *RemoteSvr) Close() error {
 	if atomic.CompareAndSwapInt32(&r.closed, 0, 1) {
 		close(r.stopChan)
 		r.conn.Close()
+		r.wakeReaders()
 	}
 	return nil
 }
@@ -208,18 +206,12 @@ func (r *RemoteSvr) readLoop(buf *bufio.Reader) {
 		switch m.Type {
 		case T_EOF:
 			atomic.StoreInt32(&r.eof, 1)
-			select {
-			case r.reciveChan <- struct{}{}:
-			default:
-			}
+			r.wakeReaders()
 		case T_DATA:
 			r.dataBufM.Lock()
 			r.dataBuf.Write(m.Data)
+			r.dataCond.Broadcast()
 			r.dataBufM.Unlock()
-			select {
-			case r.reciveChan <- struct{}{}:
-			default:
-			}
 		case T_WIDTH_REPORT:
 			r.GotReportWidth(m.Data)
 		case T_ISTTY_REPORT:
-- 
2.43.0


From 4e62a8be09733a98642bd9c72610547a2baefb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:41 +0000
Subject: [PATCH 26/67] fix: a remote write must not hang when the connection
 is closed

---
 remote.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/remote.go b/remote.go
index 77fb73a..a01b023 100644
--- a/remote.go
+++ b/remote.go
@@ -147,18 +147,25 @@ func (r *RemoteSvr) Read(b []byte) (int, error) {
 	return r.dataBuf.Read(b)
 }
 
-func (r *RemoteSvr) writeMsg(m *Message) error {
+// send hands m to the write loop and waits until it is written
+func (r *RemoteSvr) send(m *Message) (int, error) {
 	ctx := newWriteCtx(m)
-	r.writeChan <- ctx
+	select {
+	case r.writeChan <- ctx:
+	case <-r.stopChan:
+		return 0, io.ErrClosedPipe
+	}
 	reply := <-ctx.reply
-	return reply.err
+	return reply.n, reply.err
+}
+
+func (r *RemoteSvr) writeMsg(m *Message) error {
+	_, err := r.send(m)
+	return err
 }
 
 func (r *RemoteSvr) Write(b []byte) (int, error) {
-	ctx := newWriteCtx(NewMessage(T_DATA, b))
-	r.writeChan <- ctx
-	reply := <-ctx.reply
-	return reply.n, reply.err
+	return r.send(NewMessage(T_DATA, b))
 }
 
 func (r *RemoteSvr) EnterRawMode() error {
-- 
2.43.0


From 7481e70d3c3ebf20593fc4a2a352c30cb5d879e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:41 +0000
Subject: [PATCH 27/67] fix: a remote write must report the length of its data

---
 remote.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/remote.go b/remote.go
index a01b023..0d68b08 100644
--- a/remote.go
+++ b/remote.go
@@ -165,7 +165,12 @@ func (r *RemoteSvr) writeMsg(m *Message) error {
 }
 
 func (r *RemoteSvr) Write(b []byte) (int, error) {
-	return r.send(NewMessage(T_DATA, b))
+	n, err := r.send(NewMessage(T_DATA, b))
+	// the header of the message is not part of what was written
+	if n -= 6; n < 0 {
+		n = 0
+	}
+	return n, err
 }
 
 func (r *RemoteSvr) EnterRawMode() error {
-- 
2.43.0


From 0364559b111f11afbc816ed229c4932a76b08a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:27 +0000
Subject: [PATCH 28/67] fix: history must record the text submitted, not an old
 working copy

---
 history.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/history.go b/history.go
index 6b17c46..8ad2826 100644
--- a/history.go
+++ b/history.go
@@ -275,14 +275,8 @@ func (o *opHistory) New(current []rune) (err error) {
 		}
 	}
 
-	if o.current != o.history.Back() {
-		// move history item to current command
-		currentItem := o.current.Value.(*hisItem)
-		// set current to last item
-		o.current = o.history.Back()
-
-		current = runes.Copy(currentItem.Tmp)
-	}
+	// what is submitted becomes the last item, wherever it was recalled from
+	o.current = o.history.Back()
 
 	// err only can be a IO error, just report
 	err = o.Update(current, true)
-- 
2.43.0


From d7294ee8eae0d0bed297ae4dc448206528a88f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:28 +0000
Subject: [PATCH 29/67] fix: an empty first line must not become a history
 entry

---
 history.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/history.go b/history.go
index 8ad2826..ea91618 100644
--- a/history.go
+++ b/history.go
@@ -251,6 +251,9 @@ func (o *opHistory) New(current []rune) (err error) {
 	}
 
 	current = runes.Copy(current)
+	if o.history.Back() == nil {
+		o.Push(nil)
+	}
 
 	// if just use last command without modify
 	// just clean lastest history
@@ -297,9 +300,7 @@ func (o *opHistory) Update(s []rune, commit bool) (err error) {
 	defer o.fdLock.Unlock()
 	s = runes.Copy(s)
 	if o.current == nil {
-		o.Push(s)
-		o.Compact()
-		return
+		o.Push(nil)
 	}
 	r := o.current.Value.(*hisItem)
 	r.Version = o.historyVer
-- 
2.43.0


From bea69dc2eca20e54660a4a04e9c38827b538f128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:28 +0000
Subject: [PATCH 30/67] fix: browsing must start from the newest end when
 history is disabled

---
 history.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/history.go b/history.go
index ea91618..3b2336a 100644
--- a/history.go
+++ b/history.go
@@ -247,6 +247,7 @@ func (o *opHistory) New(current []rune) (err error) {
 
 	// history deactivated
 	if !o.enable {
+		o.Revert()
 		return nil
 	}
 
-- 
2.43.0


From f508779fea70fde1d4cee976e17fb2253608eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:29 +0000
Subject: [PATCH 31/67] fix: history must be done with a line before the line
 is returned

---
 operation.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/operation.go b/operation.go
index d0023b2..25e89d2 100644
--- a/operation.go
+++ b/operation.go
@@ -272,14 +272,16 @@ func (o *Operation) ioloop() {
 				o.buf.Clean()
 				data = o.buf.Reset()
 			}
-			o.stopped = false
-			o.outchan <- data
+			// the caller may go on with the history once it has the line
+			isUpdateHistory = false
 			if !o.GetConfig().DisableAutoSaveHistory {
 				// ignore IO error
 				_ = o.history.New(data)
 			} else {
-				isUpdateHistory = false
+				o.history.Revert()
 			}
+			o.stopped = false
+			o.outchan <- data
 		case CharBackward:
 			o.buf.MoveBackward()
 		case CharForward:
-- 
2.43.0


From 4ea7c47806d344febb01ed8440378a0ae192cd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:29 +0000
Subject: [PATCH 32/67] fix: browsing history must keep what vim commands did
 to the line

---
 operation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operation.go b/operation.go
index 25e89d2..f4973b6 100644
--- a/operation.go
+++ b/operation.go
@@ -174,6 +174,9 @@ func (o *Operation) ioloop() {
 		if o.IsEnableVimMode() {
 			r = o.HandleVim(r, o.readKey)
 			if r == 0 {
+				if !o.IsSearchMode() {
+					o.history.Update(o.buf.Runes(), false)
+				}
 				continue
 			}
 		}
-- 
2.43.0


From d4a2aa6e4e31f3b381e4bb019ce029789d5949a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:30 +0000
Subject: [PATCH 33/67] fix: keep as many history entries as the limit says, -1
 disables history

---
 history.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/history.go b/history.go
index 3b2336a..74bb6bc 100644
--- a/history.go
+++ b/history.go
@@ -57,7 +57,7 @@ func (o *opHistory) Init() {
 }
 
 func (o *opHistory) initHistory() {
-	if o.cfg.HistoryFile != "" {
+	if o.cfg.HistoryFile != "" && o.cfg.HistoryLimit >= 0 {
 		o.historyUpdatePath(o.cfg.HistoryFile)
 	}
 }
@@ -73,6 +73,7 @@ func (o *opHistory) historyUpdatePath(path string) {
 	o.fd = f
 	r := bufio.NewReader(o.fd)
 	total := 0
+	var lines []string
 	for ; ; total++ {
 		line, err := r.ReadString('\n')
 		if err != nil {
@@ -83,8 +84,13 @@ func (o *opHistory) historyUpdatePath(path string) {
 		if len(line) == 0 {
 			continue
 		}
+		lines = append(lines, line)
+		if len(lines) > o.cfg.HistoryLimit {
+			lines = lines[1:]
+		}
+	}
+	for _, line := range lines {
 		o.Push([]rune(line))
-		o.Compact()
 	}
 	if total > o.cfg.HistoryLimit {
 		o.rewriteLocked()
@@ -94,8 +100,10 @@ func (o *opHistory) historyUpdatePath(path string) {
 	return
 }
 
+// Compact drops the oldest items beyond the limit; the last item is the line
+// being edited and does not count.
 func (o *opHistory) Compact() {
-	for o.history.Len() > o.cfg.HistoryLimit && o.history.Len() > 0 {
+	for o.history.Len() > o.cfg.HistoryLimit+1 && o.history.Len() > 1 {
 		o.history.Remove(o.history.Front())
 	}
 }
@@ -287,7 +295,10 @@ func (o *opHistory) New(current []rune) (err error) {
 
 	// push a new one to commit current command
 	o.historyVer++
-	o.Push(nil)
+	if o.cfg.HistoryLimit >= 0 {
+		o.Push(nil)
+	}
+	o.Compact()
 	return
 }
 
@@ -306,6 +317,10 @@ func (o *opHistory) Update(s []rune, commit bool) (err error) {
 	r := o.current.Value.(*hisItem)
 	r.Version = o.historyVer
 	if commit {
+		if o.cfg.HistoryLimit < 0 {
+			r.Source = nil
+			return
+		}
 		r.Source = s
 		if o.fd != nil {
 			// just report the error
@@ -315,7 +330,6 @@ func (o *opHistory) Update(s []rune, commit bool) (err error) {
 		r.Tmp = append(r.Tmp[:0], s...)
 	}
 	o.current.Value = r
-	o.Compact()
 	return
 }
 
-- 
2.43.0


From 82f935e582277945c39456b06cb813a96d391226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:30 +0000
Subject: [PATCH 34/67] fix: a last history line without a line end is an entry
 too

---
 history.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/history.go b/history.go
index 74bb6bc..b69a9b3 100644
--- a/history.go
+++ b/history.go
@@ -28,6 +28,7 @@ type opHistory struct {
 	fd         *os.File
 	fdLock     sync.Mutex
 	enable     bool
+	unfinished bool // the last line of the file has no line end
 }
 
 func newOpHistory(cfg *Config) (o *opHistory) {
@@ -76,9 +77,11 @@ func (o *opHistory) historyUpdatePath(path string) {
 	var lines []string
 	for ; ; total++ {
 		line, err := r.ReadString('\n')
-		if err != nil {
+		if err != nil && len(line) == 0 {
 			break
 		}
+		// the next entry must not be appended to an unfinished line
+		o.unfinished = err != nil
 		// ignore the empty line
 		line = strings.TrimSpace(line)
 		if len(line) == 0 {
@@ -142,6 +145,7 @@ func (o *opHistory) rewriteLocked() {
 	}
 	// fd is write only, just satisfy what we need.
 	o.fd = fd
+	o.unfinished = false
 }
 
 func (o *opHistory) Close() {
@@ -324,7 +328,15 @@ func (o *opHistory) Update(s []rune, commit bool) (err error) {
 		r.Source = s
 		if o.fd != nil {
 			// just report the error
-			_, err = o.fd.Write([]byte(string(r.Source) + "\n"))
+			line := string(r.Source) + "\n"
+			if o.unfinished {
+				line = "\n" + line
+			}
+			var n int
+			n, err = o.fd.Write([]byte(line))
+			if n > 0 {
+				o.unfinished = n < len(line)
+			}
 		}
 	} else {
 		r.Tmp = append(r.Tmp[:0], s...)
-- 
2.43.0


From fa914b70dc9dc7da95d6296e7eba3e5bc89b9562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:37 +0000
Subject: [PATCH 35/67] fix: a read error must not make the history file lose
 its entries

---
 history.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/history.go b/history.go
index b69a9b3..76c2f07 100644
--- a/history.go
+++ b/history.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"container/list"
 	"fmt"
+	"io"
 	"os"
 	"strings"
 	"sync"
@@ -76,8 +77,9 @@ func (o *opHistory) historyUpdatePath(path string) {
 	total := 0
 	var lines []string
 	for ; ; total++ {
-		line, err := r.ReadString('\n')
-		if err != nil && len(line) == 0 {
+		var line string
+		line, err = r.ReadString('\n')
+		if err != nil && (err != io.EOF || len(line) == 0) {
 			break
 		}
 		// the next entry must not be appended to an unfinished line
@@ -95,7 +97,8 @@ func (o *opHistory) historyUpdatePath(path string) {
 	for _, line := range lines {
 		o.Push([]rune(line))
 	}
-	if total > o.cfg.HistoryLimit {
+	// a file that could not be read to its end must stay as it is
+	if total > o.cfg.HistoryLimit && err == io.EOF {
 		o.rewriteLocked()
 	}
 	o.historyVer++
-- 
2.43.0


From 1d8e113987cb3bc5da20d30387b498d33590e803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:37 +0000
Subject: [PATCH 36/67] fix: the history file must not be replaced by an
 incomplete copy

---
 history.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/history.go b/history.go
index 76c2f07..b0fb600 100644
--- a/history.go
+++ b/history.go
@@ -135,7 +135,10 @@ func (o *opHistory) rewriteLocked() {
 	for elem := o.history.Front(); elem != nil; elem = elem.Next() {
 		buf.WriteString(string(elem.Value.(*hisItem).Source) + "\n")
 	}
-	buf.Flush()
+	if err = buf.Flush(); err != nil {
+		fd.Close()
+		return
+	}
 
 	// replace history file
 	if err = os.Rename(tmpFile, o.cfg.HistoryFile); err != nil {
-- 
2.43.0


From 82de9ba30971f2e327d355539e6ba5c7d8819dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:38 +0000
Subject: [PATCH 37/67] fix: entries must not be read again when the history
 file is opened again

---
 history.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/history.go b/history.go
index b0fb600..ed4e2a3 100644
--- a/history.go
+++ b/history.go
@@ -29,6 +29,7 @@ type opHistory struct {
 	fd         *os.File
 	fdLock     sync.Mutex
 	enable     bool
+	loaded     bool // the entries of the file have been read
 	unfinished bool // the last line of the file has no line end
 }
 
@@ -68,11 +69,17 @@ func (o *opHistory) initHistory() {
 func (o *opHistory) historyUpdatePath(path string) {
 	o.fdLock.Lock()
 	defer o.fdLock.Unlock()
+	again := o.loaded
+	o.loaded = true
 	f, err := os.OpenFile(path, os.O_APPEND|os.O_CREATE|os.O_RDWR, 0666)
 	if err != nil {
 		return
 	}
 	o.fd = f
+	if again {
+		// the entries are already here
+		return
+	}
 	r := bufio.NewReader(o.fd)
 	total := 0
 	var lines []string
-- 
2.43.0


From b49db41875427ddfb94ea0d1f60bca12fa6880de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:38 +0000
Subject: [PATCH 38/67] fix: a new history path must be loaded, searched and
 kept

---
 operation.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/operation.go b/operation.go
index f4973b6..cfd4e3b 100644
--- a/operation.go
+++ b/operation.go
@@ -475,6 +475,13 @@ func (o *Operation) SetHistoryPath(path string) {
 	}
 	o.cfg.HistoryFile = path
 	o.history = newOpHistory(o.cfg)
+	o.history.Init()
+	if o.cfg.opHistory != nil {
+		o.cfg.opHistory = o.history
+	}
+	if o.opSearch != nil {
+		o.opSearch.history = o.history
+	}
 }
 
 func (o *Operation) IsNormalMode() bool {
@@ -498,8 +505,11 @@ func (op *Operation) SetConfig(cfg *Config) (*Config, error) {
 	width := op.cfg.FuncGetWidth()
 
 	if cfg.opHistory == nil {
-		op.SetHistoryPath(cfg.HistoryFile)
-		cfg.opHistory = op.history
+		if op.history != nil {
+			op.history.Close()
+		}
+		cfg.opHistory = newOpHistory(cfg)
+		op.history = cfg.opHistory
 		cfg.opSearch = newOpSearch(op.buf.w, op.buf, op.history, cfg, width)
 	}
 	op.history = cfg.opHistory
-- 
2.43.0


From 776e4571df161197ff1378c7a858216e1549c67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:39 +0000
Subject: [PATCH 39/67] fix: switching the configuration must not change the
 mask of the old one

---
 operation.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/operation.go b/operation.go
index cfd4e3b..47bf2c8 100644
--- a/operation.go
+++ b/operation.go
@@ -500,7 +500,6 @@ func (op *Operation) SetConfig(cfg *Config) (*Config, error) {
 	old := op.cfg
 	op.cfg = cfg
 	op.SetPrompt(cfg.Prompt)
-	op.SetMaskRune(cfg.MaskRune)
 	op.buf.SetConfig(cfg)
 	width := op.cfg.FuncGetWidth()
 
-- 
2.43.0


From fd521b508e9d687deac17a2a8d9f25cde7c4f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:39 +0000
Subject: [PATCH 40/67] fix: reading a password must not reset a prompt set
 through SetPrompt

---
 operation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index 47bf2c8..afb6d78 100644
--- a/operation.go
+++ b/operation.go
@@ -93,7 +93,10 @@ func NewOperation(t *Terminal, cfg *Config) *Operation {
 }
 
 func (o *Operation) SetPrompt(s string) {
+	o.m.Lock()
+	o.cfg.Prompt = s
 	o.buf.SetPrompt(s)
+	o.m.Unlock()
 }
 
 func (o *Operation) SetMaskRune(r rune) {
@@ -499,7 +502,7 @@ func (op *Operation) SetConfig(cfg *Config) (*Config, error) {
 	}
 	old := op.cfg
 	op.cfg = cfg
-	op.SetPrompt(cfg.Prompt)
+	op.buf.SetPrompt(cfg.Prompt)
 	op.buf.SetConfig(cfg)
 	width := op.cfg.FuncGetWidth()
 
-- 
2.43.0


From 61202fd30a361f6c7e6d44deccdc144c85c0d727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:39 +0000
Subject: [PATCH 41/67] fix: a configuration without a painter must not panic
 in SetConfig and ReadPasswordWithConfig

---
 readline.go | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/readline.go b/readline.go
index 63b9171..1703c91 100644
--- a/readline.go
+++ b/readline.go
@@ -1,20 +1,20 @@
 // Readline is a pure go implementation for GNU-Readline kind library.
 //
 // example:
-// 	rl, err := readline.New("> ")
-// 	if err != nil {
-// 		panic(err)
-// 	}
-// 	defer rl.Close()
 //
-// 	for {
-// 		line, err := rl.Readline()
-// 		if err != nil { // io.EOF
-// 			break
-// 		}
-// 		println(line)
-// 	}
+//	rl, err := readline.New("> ")
+//	if err != nil {
+//		panic(err)
+//	}
+//	defer rl.Close()
 //
+//	for {
+//		line, err := rl.Readline()
+//		if err != nil { // io.EOF
+//			break
+//		}
+//		println(line)
+//	}
 package readline
 
 import (
@@ -124,6 +124,9 @@ func (c *Config) Init() error {
 		c.EOFPrompt = ""
 	}
 
+	if c.Painter == nil {
+		c.Painter = &defaultPainter{}
+	}
 	if c.AutoComplete == nil {
 		c.AutoComplete = &TabCompleter{}
 	}
@@ -167,9 +170,6 @@ func NewEx(cfg *Config) (*Instance, error) {
 		return nil, err
 	}
 	rl := t.Readline()
-	if cfg.Painter == nil {
-		cfg.Painter = &defaultPainter{}
-	}
 	return &Instance{
 		Config:    cfg,
 		Terminal:  t,
@@ -301,9 +301,10 @@ func (i *Instance) Write(b []byte) (int, error) {
 // WriteStdin prefill the next Stdin fetch
 // Next time you call ReadLine() this value will be writen before the user input
 // ie :
-//  i := readline.New()
-//  i.WriteStdin([]byte("test"))
-//  _, _= i.Readline()
+//
+//	i := readline.New()
+//	i.WriteStdin([]byte("test"))
+//	_, _= i.Readline()
 //
 // gives
 //
-- 
2.43.0


From 46842913969328b7caaa0dd37a28ccccf1759146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:40 +0000
Subject: [PATCH 42/67] fix: a password prompt must use the terminal of the
 session

---
 password.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/password.go b/password.go
index 414288c..e661581 100644
--- a/password.go
+++ b/password.go
@@ -27,7 +27,12 @@ func (o *opPassword) PasswordConfig() *Config {
 		HistoryLimit:    -1,
 		Painter:         &defaultPainter{},
 
+		Stdin:  o.o.cfg.Stdin,
 		Stdout: o.o.cfg.Stdout,
 		Stderr: o.o.cfg.Stderr,
+
+		FuncGetWidth:        o.o.cfg.FuncGetWidth,
+		FuncIsTerminal:      o.o.cfg.FuncIsTerminal,
+		ForceUseInteractive: o.o.cfg.ForceUseInteractive,
 	}
 }
-- 
2.43.0


From 2420ddccefaf1e59285b92f074d540a18b117efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:40 +0000
Subject: [PATCH 43/67] fix: a password cut with Ctrl-U must not be yanked into
 the next line

---
 password.go | 6 ++++++
 runebuf.go  | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/password.go b/password.go
index e661581..dcd8b40 100644
--- a/password.go
+++ b/password.go
@@ -3,6 +3,7 @@ package readline
 type opPassword struct {
 	o         *Operation
 	backupCfg *Config
+	kill      []rune // text cut before, to be yanked again after
 }
 
 func newOpPassword(o *Operation) *opPassword {
@@ -12,10 +13,15 @@ func newOpPassword(o *Operation) *opPassword {
 func (o *opPassword) ExitPasswordMode() {
 	o.o.SetConfig(o.backupCfg)
 	o.backupCfg = nil
+	o.o.buf.swapKill(o.kill)
+	o.kill = nil
 }
 
 func (o *opPassword) EnterPasswordMode(cfg *Config) (err error) {
 	o.backupCfg, err = o.o.SetConfig(cfg)
+	if err == nil {
+		o.kill = o.o.buf.swapKill(nil)
+	}
 	return
 }
 
diff --git a/runebuf.go b/runebuf.go
index 5aadef8..8cf3cfd 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -42,6 +42,15 @@ func (r *RuneBuffer) pushKill(text []rune) {
 	r.lastKill = append([]rune{}, text...)
 }
 
+// swapKill sets the text to be yanked and returns the one before
+func (r *RuneBuffer) swapKill(text []rune) []rune {
+	r.Lock()
+	defer r.Unlock()
+	old := r.lastKill
+	r.lastKill = text
+	return old
+}
+
 func (r *RuneBuffer) OnWidthChange(newWidth int) {
 	r.Lock()
 	r.width = newWidth
-- 
2.43.0


From 8d34c34980abfdd67e2a2452225b440a4c38aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:17 +0000
Subject: [PATCH 44/67] fix: a masked line must not be searched for in the open

---
 search.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/search.go b/search.go
index 704dfa4..3683b86 100644
--- a/search.go
+++ b/search.go
@@ -99,7 +99,8 @@ func (o *opSearch) SearchChar(r rune) {
 }
 
 func (o *opSearch) SearchMode(dir int) bool {
-	if o.width <= 0 {
+	if o.width <= 0 || o.cfg.EnableMask {
+		// no room to show the search, or it would show what is masked
 		return false
 	}
 	alreadyInMode := o.inMode
-- 
2.43.0


From 453f3eb72c1cd28ec8d50350204ad22612e5305c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:45 +0000
Subject: [PATCH 45/67] fix: reading a password must restore the terminal

---
 term.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/term.go b/term.go
index ea5db93..062b668 100644
--- a/term.go
+++ b/term.go
@@ -85,11 +85,11 @@ func ReadPassword(fd int) ([]byte, error) {
 		return nil, err
 	}
 
-	newState := oldState
+	newState := *oldState
 	newState.Lflag &^= syscall.ECHO
 	newState.Lflag |= syscall.ICANON | syscall.ISIG
 	newState.Iflag |= syscall.ICRNL
-	if err := setTermios(fd, newState); err != nil {
+	if err := setTermios(fd, &newState); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 5c614ae39b1128b7c53ff5024a1499b8df8034ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:46 +0000
Subject: [PATCH 46/67] fix: leaving raw mode must put back the state from
 before it, once

---
 utils.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/utils.go b/utils.go
index 7feefc7..1fdae2c 100644
--- a/utils.go
+++ b/utils.go
@@ -285,19 +285,31 @@ func GetInt(s []string, def int) int {
 }
 
 type RawMode struct {
-	state *State
+	m     sync.Mutex
+	state *State // the state before entering, nil if not in raw mode
 }
 
 func (r *RawMode) Enter() (err error) {
-	r.state, err = MakeRaw(GetStdin())
+	r.m.Lock()
+	defer r.m.Unlock()
+	state, err := MakeRaw(GetStdin())
+	if err == nil && r.state == nil {
+		r.state = state
+	}
 	return err
 }
 
 func (r *RawMode) Exit() error {
+	r.m.Lock()
+	defer r.m.Unlock()
 	if r.state == nil {
 		return nil
 	}
-	return Restore(GetStdin(), r.state)
+	err := Restore(GetStdin(), r.state)
+	if err == nil {
+		r.state = nil
+	}
+	return err
 }
 
 // -----------------------------------------------------------------------------
-- 
2.43.0


From 23d6d495afb0a2357acfac3b447a0607c729412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:43 +0000
Subject: [PATCH 47/67] fix: an entry must not be appended to an unfinished
 line that could not be read

---
 history.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/history.go b/history.go
index ed4e2a3..95de8db 100644
--- a/history.go
+++ b/history.go
@@ -101,6 +101,10 @@ func (o *opHistory) historyUpdatePath(path string) {
 			lines = lines[1:]
 		}
 	}
+	if err != io.EOF {
+		// how the file ends is not known, an empty line does no harm
+		o.unfinished = true
+	}
 	for _, line := range lines {
 		o.Push([]rune(line))
 	}
-- 
2.43.0


From bdfab0e23095e27e4257929865023ec6f47fac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:23 +0000
Subject: [PATCH 48/67] fix: another configuration must not detach the session
 from its input

---
 terminal.go | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/terminal.go b/terminal.go
index 563f0be..c068824 100644
--- a/terminal.go
+++ b/terminal.go
@@ -16,6 +16,8 @@ type Terminal struct {
 	closed    int32
 	stopChan  chan struct{}
 	kickChan  chan struct{}
+	stdin     io.Reader // what ioloop reads, whatever the configuration says later
+	stdinFill io.Writer
 	wg        sync.WaitGroup
 	isReading int32
 	sleeping  int32
@@ -28,11 +30,13 @@ func NewTerminal(cfg *Config) (*Terminal, error) {
 		return nil, err
 	}
 	t := &Terminal{
-		cfg:      cfg,
-		kickChan: make(chan struct{}, 1),
-		outchan:  make(chan rune),
-		stopChan: make(chan struct{}, 1),
-		sizeChan: make(chan string, 1),
+		cfg:       cfg,
+		kickChan:  make(chan struct{}, 1),
+		stdin:     cfg.Stdin,
+		stdinFill: cfg.StdinWriter,
+		outchan:   make(chan rune),
+		stopChan:  make(chan struct{}, 1),
+		sizeChan:  make(chan string, 1),
 	}
 
 	go t.ioloop()
@@ -68,7 +72,7 @@ func (t *Terminal) Write(b []byte) (int, error) {
 // WriteStdin prefill the next Stdin fetch
 // Next time you call ReadLine() this value will be writen before the user input
 func (t *Terminal) WriteStdin(b []byte) (int, error) {
-	return t.cfg.StdinWriter.Write(b)
+	return t.stdinFill.Write(b)
 }
 
 type termSize struct {
@@ -129,7 +133,7 @@ func (t *Terminal) ioloop() {
 		expectNextChar bool
 	)
 
-	buf := bufio.NewReader(t.getStdin())
+	buf := bufio.NewReader(t.stdin)
 	for {
 		if !expectNextChar {
 			atomic.StoreInt32(&t.isReading, 0)
@@ -223,7 +227,7 @@ func (t *Terminal) Close() error {
 	if atomic.SwapInt32(&t.closed, 1) != 0 {
 		return nil
 	}
-	if closer, ok := t.cfg.Stdin.(io.Closer); ok {
+	if closer, ok := t.stdin.(io.Closer); ok {
 		closer.Close()
 	}
 	close(t.stopChan)
@@ -238,13 +242,6 @@ func (t *Terminal) GetConfig() *Config {
 	return &cfg
 }
 
-func (t *Terminal) getStdin() io.Reader {
-	t.m.Lock()
-	r := t.cfg.Stdin
-	t.m.Unlock()
-	return r
-}
-
 func (t *Terminal) SetConfig(c *Config) error {
 	if err := c.Init(); err != nil {
 		return err
-- 
2.43.0


From 603bba0a75460396bff1890a2591c8390cff4edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:23 +0000
Subject: [PATCH 49/67] fix: Close must not wait for a key to be taken

---
 terminal.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/terminal.go b/terminal.go
index c068824..2d493f0 100644
--- a/terminal.go
+++ b/terminal.go
@@ -204,21 +204,35 @@ func (t *Terminal) ioloop() {
 		case 0:
 			// not a key, and it stands for io.EOF in ReadRune
 		case CharEsc:
-			if t.cfg.VimMode {
-				t.outchan <- r
+			if !t.cfg.VimMode {
+				isEscape = true
 				break
 			}
-			isEscape = true
+			if !t.send(r) {
+				return
+			}
 		case CharInterrupt, CharEnter, CharCtrlJ, CharDelete:
 			expectNextChar = false
 			fallthrough
 		default:
-			t.outchan <- r
+			if !t.send(r) {
+				return
+			}
 		}
 	}
 
 }
 
+// send hands a key to ReadRune unless the terminal is closed.
+func (t *Terminal) send(r rune) bool {
+	select {
+	case t.outchan <- r:
+		return true
+	case <-t.stopChan:
+		return false
+	}
+}
+
 func (t *Terminal) Bell() {
 	fmt.Fprintf(t, "%c", CharBell)
 }
-- 
2.43.0


From fc927adfc1dc94742cc04a613417b29879da4ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:55 +0000
Subject: [PATCH 50/67] fix: nothing may wait for a read or answer one after
 Close

---
 operation.go | 45 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/operation.go b/operation.go
index afb6d78..a85c11d 100644
--- a/operation.go
+++ b/operation.go
@@ -26,7 +26,9 @@ type Operation struct {
 	outchan chan []rune
 	errchan chan error
 	done    chan struct{} // closed when no more keys will come
-	stopped bool          // the terminal has stopped reading after the last key
+	closed  chan struct{} // closed by Close
+	closing sync.Once
+	stopped bool // the terminal has stopped reading after the last key
 	w       io.Writer
 
 	history *opHistory
@@ -76,6 +78,7 @@ func NewOperation(t *Terminal, cfg *Config) *Operation {
 		outchan: make(chan []rune),
 		errchan: make(chan error, 1),
 		done:    make(chan struct{}),
+		closed:  make(chan struct{}),
 	}
 	op.w = op.buf.w
 	op.SetConfig(cfg)
@@ -145,9 +148,7 @@ func (o *Operation) ioloop() {
 		if r == 0 { // io.EOF
 			if o.buf.Len() == 0 {
 				o.buf.Clean()
-				select {
-				case o.errchan <- io.EOF:
-				}
+				o.finish(nil, io.EOF)
 				break
 			} else {
 				// if stdin got io.EOF and there is something left in buffer,
@@ -287,7 +288,7 @@ func (o *Operation) ioloop() {
 				o.history.Revert()
 			}
 			o.stopped = false
-			o.outchan <- data
+			o.finish(data, nil)
 		case CharBackward:
 			o.buf.MoveBackward()
 		case CharForward:
@@ -322,7 +323,7 @@ func (o *Operation) ioloop() {
 			isUpdateHistory = false
 			o.history.Revert()
 			o.stopped = false
-			o.errchan <- io.EOF
+			o.finish(nil, io.EOF)
 			if o.GetConfig().UniqueEditLine {
 				o.buf.Clean()
 			}
@@ -349,7 +350,7 @@ func (o *Operation) ioloop() {
 			isUpdateHistory = false
 			o.history.Revert()
 			o.stopped = false
-			o.errchan <- &InterruptError{remain}
+			o.finish(nil, &InterruptError{remain})
 		default:
 			if o.IsSearchMode() {
 				o.SearchChar(r)
@@ -392,6 +393,21 @@ func (o *Operation) ioloop() {
 	}
 }
 
+// finish ends the pending read.
+func (o *Operation) finish(line []rune, err error) {
+	if err != nil {
+		select {
+		case o.errchan <- err:
+		case <-o.closed:
+		}
+		return
+	}
+	select {
+	case o.outchan <- line:
+	case <-o.closed:
+	}
+}
+
 func (o *Operation) Stderr() io.Writer {
 	return &wrapWriter{target: o.GetConfig().Stderr, r: o, t: o.t}
 }
@@ -414,9 +430,17 @@ func (o *Operation) Runes() ([]rune, error) {
 		listener.OnChange(nil, 0, 0)
 	}
 
+	select {
+	case <-o.closed:
+		return nil, io.EOF
+	default:
+	}
+
 	o.buf.Refresh(nil) // print prompt
 	o.t.KickRead()
 	select {
+	case <-o.closed:
+		return nil, io.EOF
 	case r := <-o.outchan:
 		return r, nil
 	case err := <-o.errchan:
@@ -465,10 +489,9 @@ func (o *Operation) Slice() ([]byte, error) {
 }
 
 func (o *Operation) Close() {
-	select {
-	case o.errchan <- io.EOF:
-	default:
-	}
+	o.closing.Do(func() {
+		close(o.closed)
+	})
 	o.history.Close()
 }
 
-- 
2.43.0


From 1028d3caf2d54b287fccb7d7394328cea3ffbe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:34 +0000
Subject: [PATCH 51/67] fix: a painter must not change the line itself

---
 runebuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index 8cf3cfd..1c8305e 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -531,7 +531,7 @@ func (r *RuneBuffer) output() []byte {
 			buf.Write([]byte(string(r.cfg.MaskRune)))
 		}
 	} else {
-		for _, e := range r.cfg.Painter.Paint(r.buf, r.idx) {
+		for _, e := range r.cfg.Painter.Paint(runes.Copy(r.buf), r.idx) {
 			if e == '\t' {
 				buf.WriteString(strings.Repeat(" ", TabWidth))
 			} else {
-- 
2.43.0


From 8d63df153a9327af911f6fc33a268fadead51b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:35 +0000
Subject: [PATCH 52/67] fix: the input filter must see every key but not the
 end of input

---
 operation.go | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/operation.go b/operation.go
index a85c11d..c00d14f 100644
--- a/operation.go
+++ b/operation.go
@@ -115,18 +115,32 @@ func (o *Operation) GetConfig() *Config {
 
 // readKey reads the next key. The terminal stops reading after a key which may
 // end the line, so it has to go on when that key did not.
+//
+// The input filter sees every key, also one which completes a vim command, but
+// not the end of the input.
 func (o *Operation) readKey() rune {
-	if o.stopped {
-		o.t.KickRead()
-	}
-	r := o.t.ReadRune()
-	switch r {
-	case CharInterrupt, CharEnter, CharCtrlJ, CharDelete:
-		o.stopped = true
-	default:
-		o.stopped = false
+	for {
+		if o.stopped {
+			o.t.KickRead()
+		}
+		r := o.t.ReadRune()
+		switch r {
+		case CharInterrupt, CharEnter, CharCtrlJ, CharDelete:
+			o.stopped = true
+		default:
+			o.stopped = false
+		}
+
+		filter := o.GetConfig().FuncFilterInputRune
+		if r == 0 || filter == nil {
+			return r
+		}
+		r, process := filter(r)
+		if process {
+			return r
+		}
+		o.buf.Refresh(nil) // to refresh the line, and ignore this rune
 	}
-	return r
 }
 
 func (o *Operation) ioloop() {
@@ -136,15 +150,6 @@ func (o *Operation) ioloop() {
 		keepInCompleteMode := false
 		r := o.readKey()
 
-		if o.GetConfig().FuncFilterInputRune != nil {
-			var process bool
-			r, process = o.GetConfig().FuncFilterInputRune(r)
-			if !process {
-				o.buf.Refresh(nil) // to refresh the line
-				continue           // ignore this rune
-			}
-		}
-
 		if r == 0 { // io.EOF
 			if o.buf.Len() == 0 {
 				o.buf.Clean()
-- 
2.43.0


From 3faefb30c9bd5505a3193e06f1e5f3088681340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:47 +0000
Subject: [PATCH 53/67] fix: a read interrupted by a signal must not break a
 character apart

---
 terminal.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/terminal.go b/terminal.go
index 2d493f0..9a94f52 100644
--- a/terminal.go
+++ b/terminal.go
@@ -133,7 +133,7 @@ func (t *Terminal) ioloop() {
 		expectNextChar bool
 	)
 
-	buf := bufio.NewReader(t.stdin)
+	buf := bufio.NewReader(retryReader{t.stdin})
 	for {
 		if !expectNextChar {
 			atomic.StoreInt32(&t.isReading, 0)
@@ -147,10 +147,6 @@ func (t *Terminal) ioloop() {
 		expectNextChar = false
 		r, _, err := buf.ReadRune()
 		if err != nil {
-			if strings.Contains(err.Error(), "interrupted system call") {
-				expectNextChar = true
-				continue
-			}
 			break
 		}
 
@@ -223,6 +219,24 @@ func (t *Terminal) ioloop() {
 
 }
 
+// retryReader goes on when a signal interrupts a read, maybe in the middle of a
+// character.
+type retryReader struct {
+	r io.Reader
+}
+
+func (r retryReader) Read(p []byte) (n int, err error) {
+	for {
+		n, err = r.r.Read(p)
+		if err == nil || !strings.Contains(err.Error(), "interrupted system call") {
+			return n, err
+		}
+		if n > 0 {
+			return n, nil
+		}
+	}
+}
+
 // send hands a key to ReadRune unless the terminal is closed.
 func (t *Terminal) send(r rune) bool {
 	select {
-- 
2.43.0


From c296430255398d6ef49ab697b7b6726029ea9f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 54/67] fix: a search must leave the cursor on the editing
 position

The column ignored that lines wrap, the rows of a long search text were not
counted, and marking the match left the cursor at its end.
---
 runebuf.go | 59 ++++++++++++++++++++++++++++++++++++++----------------
 search.go  | 24 ++++++++++------------
 utils.go   | 17 ++++++++++++++++
 3 files changed, 70 insertions(+), 30 deletions(-)

diff --git a/runebuf.go b/runebuf.go
index 1c8305e..c63d0df 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -486,6 +486,14 @@ func (r *RuneBuffer) idxLine(width int) int {
 	return row
 }
 
+// cursorCol is the column of the screen cursor.
+func (r *RuneBuffer) cursorCol() int {
+	r.Lock()
+	defer r.Unlock()
+	_, col := r.position(r.idx)
+	return col
+}
+
 func (r *RuneBuffer) CursorLineCount() int {
 	return r.LineCount(r.width) - r.IdxLine(r.width)
 }
@@ -531,13 +539,7 @@ func (r *RuneBuffer) output() []byte {
 			buf.Write([]byte(string(r.cfg.MaskRune)))
 		}
 	} else {
-		for _, e := range r.cfg.Painter.Paint(runes.Copy(r.buf), r.idx) {
-			if e == '\t' {
-				buf.WriteString(strings.Repeat(" ", TabWidth))
-			} else {
-				buf.WriteRune(e)
-			}
-		}
+		buf.WriteString(expandTabs(r.cfg.Painter.Paint(runes.Copy(r.buf), r.idx)))
 	}
 	if r.isInLineEdge() {
 		buf.Write([]byte(" \b"))
@@ -549,14 +551,35 @@ func (r *RuneBuffer) output() []byte {
 	return buf.Bytes()
 }
 
+func expandTabs(rs []rune) string {
+	buf := bytes.NewBuffer(nil)
+	for _, e := range rs {
+		if e == '\t' {
+			buf.WriteString(strings.Repeat(" ", TabWidth))
+		} else {
+			buf.WriteRune(e)
+		}
+	}
+	return buf.String()
+}
+
 func (r *RuneBuffer) getBackspaceSequence() []byte {
 	endRow, endCol := r.position(len(r.buf))
 	row, col := r.position(r.idx)
 	if row == endRow {
 		return bytes.Repeat([]byte{'\b'}, endCol-col)
 	}
-	// go up to the row of the cursor and move right from its start
-	seq := "\033[" + strconv.Itoa(endRow-row) + "A\r"
+	return moveCursor(row-endRow, col)
+}
+
+// moveCursor moves the cursor some rows down, or up if negative, and then to col.
+func moveCursor(rows, col int) []byte {
+	seq := "\r"
+	if rows < 0 {
+		seq = "\033[" + strconv.Itoa(-rows) + "A\r"
+	} else if rows > 0 {
+		seq = "\033[" + strconv.Itoa(rows) + "B\r"
+	}
 	if col > 0 {
 		seq += "\033[" + strconv.Itoa(col) + "C"
 	}
@@ -583,17 +606,19 @@ func (r *RuneBuffer) SetStyle(start, end int, style string) {
 		panic("end < start")
 	}
 
+	r.Lock()
+	defer r.Unlock()
+
 	// goto start
-	move := start - r.idx
-	if move > 0 {
-		r.w.Write([]byte(string(r.buf[r.idx : r.idx+move])))
-	} else {
-		r.w.Write(bytes.Repeat([]byte("\b"), r.calWidth(move)))
-	}
+	row, col := r.position(r.idx)
+	startRow, startCol := r.position(start)
+	r.w.Write(moveCursor(startRow-row, startCol))
 	r.w.Write([]byte("\033[" + style + "m"))
-	r.w.Write([]byte(string(r.buf[start:end])))
+	r.w.Write([]byte(expandTabs(r.buf[start:end])))
 	r.w.Write([]byte("\033[0m"))
-	// TODO: move back
+	// move back
+	endRow := startRow + rowsBelow(startCol, r.width, r.buf[start:end])
+	r.w.Write(moveCursor(row-endRow, col))
 }
 
 func (r *RuneBuffer) SetWithIdx(idx int, buf []rune) {
diff --git a/search.go b/search.go
index 3683b86..6d06a76 100644
--- a/search.go
+++ b/search.go
@@ -137,14 +137,9 @@ func (o *opSearch) SearchRefresh(x int) {
 	} else if x >= 0 {
 		o.state = S_STATE_FOUND
 	}
-	if x < 0 {
-		x = o.buf.idx
-	}
-	x = o.buf.CurrentWidth(x)
-	x += o.buf.PromptLen()
-	x = x % o.width
+	x = o.buf.cursorCol()
 
-	if o.markStart > 0 {
+	if o.markStart > 0 && o.markEnd <= o.buf.Len() {
 		o.buf.SetStyle(o.markStart, o.markEnd, "4")
 	}
 
@@ -152,17 +147,20 @@ func (o *opSearch) SearchRefresh(x int) {
 	buf := bytes.NewBuffer(nil)
 	buf.Write(bytes.Repeat([]byte("\n"), lineCnt))
 	buf.WriteString("\033[J")
+	status := ""
 	if o.state == S_STATE_FAILING {
-		buf.WriteString("failing ")
+		status = "failing "
 	}
 	if o.dir == S_DIR_BCK {
-		buf.WriteString("bck")
+		status += "bck"
 	} else if o.dir == S_DIR_FWD {
-		buf.WriteString("fwd")
+		status += "fwd"
 	}
-	buf.WriteString("-i-search: ")
-	buf.WriteString(string(o.data))         // keyword
-	buf.WriteString("\033[4m \033[0m")      // _
+	status += "-i-search: "
+	status += string(o.data) // keyword
+	buf.WriteString(status)
+	buf.WriteString("\033[4m \033[0m") // _
+	lineCnt += rowsBelow(0, o.width, []rune(status+" "))
 	fmt.Fprintf(buf, "\r\033[%dA", lineCnt) // move prev
 	if x > 0 {
 		fmt.Fprintf(buf, "\033[%dC", x) // move forward
diff --git a/utils.go b/utils.go
index 1fdae2c..fd608f4 100644
--- a/utils.go
+++ b/utils.go
@@ -232,6 +232,23 @@ func advance(row, col, screenWidth int, r rune) (int, int) {
 	return row + col/screenWidth, col % screenWidth
 }
 
+// rowsBelow returns how many rows below its start the cursor of a terminal
+// stands after rs was written from col on. It stays in a row which is full.
+func rowsBelow(col, screenWidth int, rs []rune) int {
+	below, row := 0, 0
+	for _, r := range rs {
+		if runes.Width(r) == 0 {
+			continue
+		}
+		row, col = advance(row, col, screenWidth, r)
+		below = row
+		if col == 0 {
+			below--
+		}
+	}
+	return below
+}
+
 func SplitByLine(start, screenWidth int, rs []rune) []string {
 	var ret []string
 	buf := bytes.NewBuffer(nil)
-- 
2.43.0


From e2f803f11685ae9ed29634af5a8fa74e3d0f1a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:13 +0000
Subject: [PATCH 55/67] fix: showing candidates must leave the cursor on the
 editing position

The column ignored wide characters and wrapped lines, and the rows of
candidates longer than a row were not counted.
---
 complete.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/complete.go b/complete.go
index 813cbd9..ceee920 100644
--- a/complete.go
+++ b/complete.go
@@ -3,8 +3,8 @@ package readline
 import (
 	"bufio"
 	"bytes"
-	"fmt"
 	"io"
+	"strings"
 )
 
 type AutoCompleter interface {
@@ -223,7 +223,13 @@ func (o *opCompleter) CompleteRefresh() {
 		}
 		buf.WriteString(string(same))
 		buf.WriteString(string(c))
-		buf.Write(bytes.Repeat([]byte(" "), colWidth-runes.WidthAll(c)-runes.WidthAll(same)))
+		pad := colWidth - runes.WidthAll(c) - runes.WidthAll(same)
+		buf.Write(bytes.Repeat([]byte(" "), pad))
+		if colNum == 1 {
+			// it may need several rows
+			cell := append(append(append([]rune{}, same...), c...), []rune(strings.Repeat(" ", pad))...)
+			lines += rowsBelow(0, o.width, cell)
+		}
 
 		if inSelect {
 			buf.WriteString("\033[0m")
@@ -238,8 +244,7 @@ func (o *opCompleter) CompleteRefresh() {
 	}
 
 	// move back
-	fmt.Fprintf(buf, "\033[%dA\r", lineCnt-1+lines)
-	fmt.Fprintf(buf, "\033[%dC", o.op.buf.idx+o.op.buf.PromptLen())
+	buf.Write(moveCursor(-(lineCnt - 1 + lines), o.op.buf.cursorCol()))
 	buf.Flush()
 }
 
-- 
2.43.0


From 6da42327cdf96e662f77c1b8d9253ab74ce517ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 56/67] fix: output during a read must not be taken for output
 between reads

After a key which may end the line the terminal waits to hear if it did, what
was written meanwhile stayed without the prompt and the line below it; after
the end of the input every write brought the prompt back.
---
 operation.go | 23 +++++++++++++++--------
 runebuf.go   | 17 +++++++++++++++++
 terminal.go  |  2 ++
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/operation.go b/operation.go
index c00d14f..e74e210 100644
--- a/operation.go
+++ b/operation.go
@@ -49,17 +49,15 @@ type wrapWriter struct {
 }
 
 func (w *wrapWriter) Write(b []byte) (int, error) {
-	if !w.t.IsReading() {
-		return w.target.Write(b)
-	}
-
 	var (
 		n   int
 		err error
 	)
-	w.r.buf.Refresh(func() {
+	if !w.r.buf.refreshIf(w.r.isReading, func() {
 		n, err = w.target.Write(b)
-	})
+	}) {
+		return n, err
+	}
 
 	if w.r.IsSearchMode() {
 		w.r.SearchRefresh(-1)
@@ -567,8 +565,17 @@ func (o *Operation) SaveHistory(content string) error {
 }
 
 func (o *Operation) Refresh() {
-	if o.t.IsReading() {
-		o.buf.Refresh(nil)
+	o.buf.refreshIf(o.isReading, func() {})
+}
+
+// isReading tells if a line is read, the terminal may be waiting to hear that
+// the last key did not end it.
+func (o *Operation) isReading(shown bool) bool {
+	select {
+	case <-o.closed:
+		return false
+	default:
+		return shown || o.t.IsReading()
 	}
 }
 
diff --git a/runebuf.go b/runebuf.go
index c63d0df..5ccca1d 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -501,7 +501,10 @@ func (r *RuneBuffer) CursorLineCount() int {
 func (r *RuneBuffer) Refresh(f func()) {
 	r.Lock()
 	defer r.Unlock()
+	r.refresh(f)
+}
 
+func (r *RuneBuffer) refresh(f func()) {
 	if !r.interactive {
 		if f != nil {
 			f()
@@ -516,6 +519,20 @@ func (r *RuneBuffer) Refresh(f func()) {
 	r.print()
 }
 
+// refreshIf is Refresh if a line is read and just calls f otherwise; reading
+// decides that, it is told if the line is on the screen.
+func (r *RuneBuffer) refreshIf(reading func(shown bool) bool, f func()) bool {
+	r.Lock()
+	defer r.Unlock()
+
+	if !reading(r.cursorRow >= 0) {
+		f()
+		return false
+	}
+	r.refresh(f)
+	return true
+}
+
 func (r *RuneBuffer) SetOffset(offset string) {
 	r.Lock()
 	r.offset = offset
diff --git a/terminal.go b/terminal.go
index 9a94f52..60958f8 100644
--- a/terminal.go
+++ b/terminal.go
@@ -122,6 +122,7 @@ func (t *Terminal) KickRead() {
 func (t *Terminal) ioloop() {
 	t.wg.Add(1)
 	defer func() {
+		atomic.StoreInt32(&t.isReading, 0)
 		t.wg.Done()
 		close(t.outchan)
 	}()
@@ -209,6 +210,7 @@ func (t *Terminal) ioloop() {
 			}
 		case CharInterrupt, CharEnter, CharCtrlJ, CharDelete:
 			expectNextChar = false
+			atomic.StoreInt32(&t.isReading, 0)
 			fallthrough
 		default:
 			if !t.send(r) {
-- 
2.43.0


From 547194d965cf0d733bceb5becaef9743a96f35e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 57/67] fix: a search or candidates being shown must not mix
 with output

Both were drawn in several steps, output in between left the cursor in the
wrong place, the search or the candidates on the screen after they were left,
or made showing the candidates panic after the word was edited.
---
 complete.go  | 25 +++++++++++++++++++++----
 operation.go |  8 ++------
 runebuf.go   | 15 +++++++++------
 search.go    | 26 +++++++++++++++++---------
 4 files changed, 49 insertions(+), 25 deletions(-)

diff --git a/complete.go b/complete.go
index ceee920..50ce0f4 100644
--- a/complete.go
+++ b/complete.go
@@ -48,8 +48,9 @@ func newOpCompleter(w io.Writer, op *Operation, width int) *opCompleter {
 
 func (o *opCompleter) doSelect() {
 	if len(o.candidate) == 1 {
-		o.op.buf.WriteRunes(o.candidate[0])
+		candidate := o.candidate[0]
 		o.ExitCompleteMode(false)
+		o.op.buf.WriteRunes(candidate)
 		return
 	}
 	o.nextCandidate(1)
@@ -86,7 +87,11 @@ func (o *opCompleter) OnComplete() bool {
 	o.candidateSource = rs
 	newLines, offset := o.op.cfg.AutoComplete.Do(rs, buf.idx)
 	if len(newLines) == 0 {
+		shown := o.IsInCompleteMode()
 		o.ExitCompleteMode(false)
+		if shown {
+			buf.Refresh(nil)
+		}
 		return true
 	}
 
@@ -186,10 +191,14 @@ func (o *opCompleter) OnWidthChange(newWidth int) {
 }
 
 func (o *opCompleter) CompleteRefresh() {
+	// nothing else may be shown before the cursor is back
+	o.op.buf.Lock()
+	defer o.op.buf.Unlock()
+
 	if !o.inCompleteMode || len(o.candidate) == 0 {
 		return
 	}
-	lineCnt := o.op.buf.CursorLineCount()
+	lineCnt, col := o.op.buf.cursorBelow()
 	colWidth := 0
 	for _, c := range o.candidate {
 		w := runes.WidthAll(c)
@@ -197,7 +206,11 @@ func (o *opCompleter) CompleteRefresh() {
 			colWidth = w
 		}
 	}
-	same := o.op.buf.RuneSlice(-o.candidateOff)
+	off := o.candidateOff
+	if off > o.op.buf.idx {
+		off = o.op.buf.idx // the line has changed since
+	}
+	same := o.op.buf.buf[o.op.buf.idx-off : o.op.buf.idx]
 	colWidth += runes.WidthAll(same) + 1
 
 	// -1 to avoid reach the end of line
@@ -244,7 +257,7 @@ func (o *opCompleter) CompleteRefresh() {
 	}
 
 	// move back
-	buf.Write(moveCursor(-(lineCnt - 1 + lines), o.op.buf.cursorCol()))
+	buf.Write(moveCursor(-(lineCnt - 1 + lines), col))
 	buf.Flush()
 }
 
@@ -272,18 +285,22 @@ func (o *opCompleter) EnterCompleteSelectMode() {
 }
 
 func (o *opCompleter) EnterCompleteMode(offset int, candidate [][]rune) {
+	o.op.buf.Lock()
 	o.inCompleteMode = true
 	o.candidate = candidate
 	o.candidateOff = offset
+	o.op.buf.Unlock()
 	o.CompleteRefresh()
 }
 
 func (o *opCompleter) ExitCompleteSelectMode() {
+	o.op.buf.Lock()
 	o.inSelectMode = false
 	o.candidate = nil
 	o.candidateChoise = -1
 	o.candidateOff = -1
 	o.candidateSource = nil
+	o.op.buf.Unlock()
 }
 
 func (o *opCompleter) ExitCompleteMode(revent bool) {
diff --git a/operation.go b/operation.go
index e74e210..23f4442 100644
--- a/operation.go
+++ b/operation.go
@@ -59,12 +59,8 @@ func (w *wrapWriter) Write(b []byte) (int, error) {
 		return n, err
 	}
 
-	if w.r.IsSearchMode() {
-		w.r.SearchRefresh(-1)
-	}
-	if w.r.IsInCompleteMode() {
-		w.r.CompleteRefresh()
-	}
+	w.r.SearchRefresh(-1)
+	w.r.CompleteRefresh()
 	return n, err
 }
 
diff --git a/runebuf.go b/runebuf.go
index 5ccca1d..bdec43a 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -486,12 +486,12 @@ func (r *RuneBuffer) idxLine(width int) int {
 	return row
 }
 
-// cursorCol is the column of the screen cursor.
-func (r *RuneBuffer) cursorCol() int {
-	r.Lock()
-	defer r.Unlock()
-	_, col := r.position(r.idx)
-	return col
+// cursorBelow returns how many rows the first row below the line is below the
+// screen cursor, and the column of the screen cursor.
+func (r *RuneBuffer) cursorBelow() (rows, col int) {
+	endRow, _ := r.position(len(r.buf))
+	row, col := r.position(r.idx)
+	return endRow + 1 - row, col
 }
 
 func (r *RuneBuffer) CursorLineCount() int {
@@ -625,7 +625,10 @@ func (r *RuneBuffer) SetStyle(start, end int, style string) {
 
 	r.Lock()
 	defer r.Unlock()
+	r.setStyle(start, end, style)
+}
 
+func (r *RuneBuffer) setStyle(start, end int, style string) {
 	// goto start
 	row, col := r.position(r.idx)
 	startRow, startCol := r.position(start)
diff --git a/search.go b/search.go
index 6d06a76..37dabca 100644
--- a/search.go
+++ b/search.go
@@ -88,7 +88,9 @@ func (o *opSearch) search(isChange bool) bool {
 		idx += len(o.data)
 	}
 	o.buf.SetWithIdx(idx, item)
+	o.buf.Lock()
 	o.markStart, o.markEnd = start, end
+	o.buf.Unlock()
 	o.SearchRefresh(idx)
 	return true
 }
@@ -117,19 +119,26 @@ func (o *opSearch) SearchMode(dir int) bool {
 }
 
 func (o *opSearch) ExitSearchMode(revert bool) {
-	if revert {
-		o.history.current = o.source
-		o.buf.SetWithIdx(o.idx, o.line)
-	}
+	source, line := o.source, o.line
+	o.buf.Lock()
 	o.markStart, o.markEnd = 0, 0
 	o.state = S_STATE_FOUND
 	o.inMode = false
 	o.source, o.line = nil, nil
 	o.data = nil
+	o.buf.Unlock()
+	if revert {
+		o.history.current = source
+		o.buf.SetWithIdx(o.idx, line)
+	}
 }
 
 func (o *opSearch) SearchRefresh(x int) {
-	if o.width <= 0 {
+	// nothing else may be shown before the cursor is back
+	o.buf.Lock()
+	defer o.buf.Unlock()
+
+	if o.width <= 0 || !o.inMode {
 		return
 	}
 	if x == -2 {
@@ -137,13 +146,12 @@ func (o *opSearch) SearchRefresh(x int) {
 	} else if x >= 0 {
 		o.state = S_STATE_FOUND
 	}
-	x = o.buf.cursorCol()
 
-	if o.markStart > 0 && o.markEnd <= o.buf.Len() {
-		o.buf.SetStyle(o.markStart, o.markEnd, "4")
+	if o.markStart > 0 && o.markEnd <= len(o.buf.buf) {
+		o.buf.setStyle(o.markStart, o.markEnd, "4")
 	}
 
-	lineCnt := o.buf.CursorLineCount()
+	lineCnt, x := o.buf.cursorBelow()
 	buf := bytes.NewBuffer(nil)
 	buf.Write(bytes.Repeat([]byte("\n"), lineCnt))
 	buf.WriteString("\033[J")
-- 
2.43.0


From bd5118a2e21c67b5efd86a24a053c6194d0d1522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:20 +0000
Subject: [PATCH 58/67] fix: colour codes without a colour must not make the
 Windows writer panic

---
 ansi_windows.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ansi_windows.go b/ansi_windows.go
index 63b908c..bf1dd0c 100644
--- a/ansi_windows.go
+++ b/ansi_windows.go
@@ -156,10 +156,10 @@ func (a *ANSIWriterCtx) ioloopEscSeq(w *bufio.Writer, r rune, argptr *[]string)
 				w.WriteString("[" + strings.Join(arg, ";") + "m")
 				break
 			}
-			if c >= 30 && c < 40 {
+			if c >= 30 && c < 38 {
 				color ^= COLOR_FINTENSITY
 				color |= ColorTableFg[c-30]
-			} else if c >= 40 && c < 50 {
+			} else if c >= 40 && c < 48 {
 				color ^= COLOR_BINTENSITY
 				color |= ColorTableBg[c-40]
 			} else if c == 4 {
-- 
2.43.0


From a78b9a1f04766d8780878db7f3d73263007277a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 59/67] fix: on Windows a '[' long after an escape character is
 text

---
 ansi_windows.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ansi_windows.go b/ansi_windows.go
index bf1dd0c..551944f 100644
--- a/ansi_windows.go
+++ b/ansi_windows.go
@@ -112,6 +112,7 @@ func (a *ANSIWriterCtx) process(r rune) bool {
 		}
 		fallthrough
 	default:
+		a.isEsc = false
 		a.target.WriteRune(r)
 		a.wantFlush = true
 	}
-- 
2.43.0


From 4d7e1be262a62c2cbc001200a63fd926a396774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 60/67] fix: on Windows ESC[m must reset the colours, not make
 everything black

---
 ansi_windows.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ansi_windows.go b/ansi_windows.go
index 551944f..3146aeb 100644
--- a/ansi_windows.go
+++ b/ansi_windows.go
@@ -150,6 +150,9 @@ func (a *ANSIWriterCtx) ioloopEscSeq(w *bufio.Writer, r rune, argptr *[]string)
 		eraseLine()
 	case 'm':
 		color := word(0)
+		if len(arg) == 0 { // the same as 0
+			color = ColorTableFg[7]
+		}
 		for _, item := range arg {
 			var c int
 			c, err = strconv.Atoi(item)
-- 
2.43.0


From 36b674aec277449ee837f6fd9163153b56e87a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 61/67] fix: on Windows erasing to the end of a large screen
 must reach its end

---
 ansi_windows.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ansi_windows.go b/ansi_windows.go
index 3146aeb..6fed8e4 100644
--- a/ansi_windows.go
+++ b/ansi_windows.go
@@ -220,8 +220,8 @@ func killLines() error {
 		return err
 	}
 
-	size := (sbi.dwCursorPosition.y - sbi.dwSize.y) * sbi.dwSize.x
-	size += sbi.dwCursorPosition.x
+	size := int(sbi.dwSize.y-sbi.dwCursorPosition.y) * int(sbi.dwSize.x)
+	size -= int(sbi.dwCursorPosition.x)
 
 	var written int
 	kernel.FillConsoleOutputAttribute(stdout, uintptr(ColorTableFg[7]),
-- 
2.43.0


From a82fa0111b4f2ac679a4747bc1124605b1ed53fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:59 +0000
Subject: [PATCH 62/67] fix: SetTitle must set the title, not print it

---
 ansi_windows.go | 15 ++++++++++++++-
 operation.go    |  2 +-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/ansi_windows.go b/ansi_windows.go
index 6fed8e4..08ed052 100644
--- a/ansi_windows.go
+++ b/ansi_windows.go
@@ -73,6 +73,7 @@ func (a *ANSIWriter) Close() error {
 type ANSIWriterCtx struct {
 	isEsc     bool
 	isEscSeq  bool
+	isTitle   bool
 	arg       []string
 	target    *bufio.Writer
 	wantFlush bool
@@ -99,10 +100,15 @@ func (a *ANSIWriterCtx) process(r rune) bool {
 		a.isEscSeq = a.ioloopEscSeq(a.target, r, &a.arg)
 		return true
 	}
+	if a.isTitle && r != CharEsc { // ends with a bell
+		a.isTitle = r != CharBell
+		return true
+	}
 
 	switch r {
 	case CharEsc:
 		a.isEsc = true
+		a.isTitle = false
 	case '[':
 		if a.isEsc {
 			a.arg = nil
@@ -111,6 +117,13 @@ func (a *ANSIWriterCtx) process(r rune) bool {
 			break
 		}
 		fallthrough
+	case ']':
+		if a.isEsc {
+			a.isTitle = true
+			a.isEsc = false
+			break
+		}
+		fallthrough
 	default:
 		a.isEsc = false
 		a.target.WriteRune(r)
@@ -178,7 +191,7 @@ func (a *ANSIWriterCtx) ioloopEscSeq(w *bufio.Writer, r rune, argptr *[]string)
 			break
 		}
 		kernel.SetConsoleTextAttribute(stdout, uintptr(color))
-	case '\007': // set title
+	case '\007': // set title, as older versions did
 	case ';':
 		if len(arg) == 0 || arg[len(arg)-1] != "" {
 			arg = append(arg, "")
diff --git a/operation.go b/operation.go
index 23f4442..b0ff12f 100644
--- a/operation.go
+++ b/operation.go
@@ -476,7 +476,7 @@ func (o *Operation) Password(prompt string) ([]byte, error) {
 }
 
 func (o *Operation) SetTitle(t string) {
-	o.w.Write([]byte("\033[2;" + t + "\007"))
+	o.w.Write([]byte("\033]2;" + t + "\007"))
 }
 
 func (o *Operation) Slice() ([]byte, error) {
-- 
2.43.0


From 504dc1e59df73f82b553a513a877b718c40a32a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:58 +0000
Subject: [PATCH 63/67] fix: changing the configuration takes its vim mode
 along

The vim mode stayed with the first configuration while the terminal looks at
the current one: SetConfig did not switch it, and SetVimMode after SetConfig
left the two halves in different modes.
---
 readline.go | 1 +
 vim.go      | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/readline.go b/readline.go
index 1703c91..f585f1f 100644
--- a/readline.go
+++ b/readline.go
@@ -320,6 +320,7 @@ func (i *Instance) SetConfig(cfg *Config) *Config {
 	old := i.Config
 	i.Config = cfg
 	i.Operation.SetConfig(cfg)
+	i.Operation.opVim.setConfig(cfg)
 	i.Terminal.SetConfig(cfg)
 	return old
 }
diff --git a/vim.go b/vim.go
index b92b0a1..ef9ac89 100644
--- a/vim.go
+++ b/vim.go
@@ -21,6 +21,13 @@ func newVimMode(op *Operation) *opVim {
 	return ov
 }
 
+// setConfig follows a change of the session's configuration. A password has a
+// configuration of its own, but is read in the mode of the session.
+func (o *opVim) setConfig(cfg *Config) {
+	o.ExitVimMode()
+	o.cfg = cfg
+}
+
 func (o *opVim) SetVimMode(on bool) {
 	if o.cfg.VimMode && !on { // turn off
 		o.ExitVimMode()
-- 
2.43.0


From 1cb81fcc53f144ac6559f67c5b2f738b158eb1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:59 +0000
Subject: [PATCH 64/67] fix: a search knows the terminal's width after a change
 of configuration

When the terminal was resized while a password (or another configuration) was
in use, the search of the first configuration kept the old width and placed
the cursor in the wrong row.
---
 operation.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/operation.go b/operation.go
index b0ff12f..494d44f 100644
--- a/operation.go
+++ b/operation.go
@@ -547,6 +547,7 @@ func (op *Operation) SetConfig(cfg *Config) (*Config, error) {
 	}
 
 	op.opSearch = cfg.opSearch
+	op.opSearch.OnWidthChange(width)
 	return old, nil
 }
 
-- 
2.43.0


From 5a69aed0b169dfedf46ba451a70260a009ce0099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:39 +0000
Subject: [PATCH 65/67] fix: setting the global completer keeps the history
 added before

SetAutoComplete gave the global instance a new, empty history.
---
 std.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/std.go b/std.go
index 7844a93..c292995 100644
--- a/std.go
+++ b/std.go
@@ -44,6 +44,9 @@ func SetAutoComplete(completer AutoCompleter) {
 	ins := getInstance()
 	cfg := ins.Config.Clone()
 	cfg.AutoComplete = completer
+	// the history goes on
+	cfg.opHistory = ins.Config.opHistory
+	cfg.opSearch = ins.Config.opSearch
 	ins.SetConfig(cfg)
 }
 
-- 
2.43.0


From 764b812494d03134450069a2469a1521297efe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:27 +0000
Subject: [PATCH 66/67] fix: completing a common prefix must not change the
 completer's candidates

---
 complete.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/complete.go b/complete.go
index 50ce0f4..cd4a2d3 100644
--- a/complete.go
+++ b/complete.go
@@ -103,7 +103,8 @@ func (o *opCompleter) OnComplete() bool {
 			return true
 		}
 
-		same, size := runes.Aggregate(newLines)
+		// the candidates belong to the completer
+		same, size := runes.Aggregate(append([][]rune{}, newLines...))
 		if size > 0 {
 			buf.WriteRunes(same)
 			o.ExitCompleteMode(false)
-- 
2.43.0


From ed149165c2dc5161fac959ed793760272a553d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:15 +0000
Subject: [PATCH 67/67] fix: a session closed while the process is suspended
 stays out of raw mode

---
 terminal.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/terminal.go b/terminal.go
index 60958f8..8a53a23 100644
--- a/terminal.go
+++ b/terminal.go
@@ -54,7 +54,14 @@ func (t *Terminal) SleepToResume() {
 	ch := WaitForResume()
 	SuspendMe()
 	<-ch
+	if atomic.LoadInt32(&t.closed) == 1 {
+		return
+	}
 	t.EnterRawMode()
+	if atomic.LoadInt32(&t.closed) == 1 {
+		// closed at the same time
+		t.ExitRawMode()
+	}
 }
 
 func (t *Terminal) EnterRawMode() (err error) {
-- 
2.43.0

