From 2dae4c1b4c2180dbae3f29b9d30a07b4cdbe1f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 01/42] fix: restore the terminal on every exit from Run

---
 app.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/app.go b/app.go
index 93a426b..85a3a56 100644
--- a/app.go
+++ b/app.go
@@ -169,6 +169,9 @@ type appRunner struct {
 	finished chan struct{}
 
 	closeInput func() error
+
+	shutdownOnce sync.Once
+	shutdownErr  error
 }
 
 func (a *appRunner) initModel() {
@@ -194,6 +197,13 @@ func (a *appRunner) Run() (model Model, err error) {
 		}
 	}()
 
+	// Whatever the reason to leave, the terminal must be given back.
+	defer func() {
+		if shutdownErr := a.shutdown(); shutdownErr != nil && err == nil {
+			err = fmt.Errorf("shutdown: %w", shutdownErr)
+		}
+	}()
+
 	defer a.recoverFromPanic()
 
 	err = a.init()
@@ -227,10 +237,6 @@ func (a *appRunner) Run() (model Model, err error) {
 
 	a.draw(model)
 
-	if err := a.shutdown(); err != nil {
-		return model, fmt.Errorf("shutdown: %w", err)
-	}
-
 	return model, nil
 }
 
@@ -358,12 +364,18 @@ func (a *appRunner) recoverFromPanic() {
 	}
 }
 
+// shutdown stops the runner and restores the terminal. It is safe to call it
+// many times: only the first call has an effect, the other ones wait for it.
 func (a *appRunner) shutdown() error {
-	a.cancelCtx()
+	a.shutdownOnce.Do(func() {
+		a.cancelCtx()
+
+		a.handlers.shutdown()
 
-	a.handlers.shutdown()
+		a.shutdownErr = a.restore()
+	})
 
-	return a.restore()
+	return a.shutdownErr
 }
 
 func (a *appRunner) draw(widget Widget) {
-- 
2.43.0


From 21e6301aa7eab09dc48ff40b72036ae55c898736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 02/42] fix: attempt every restoration step even if one of them
 fails

---
 app.go              |  8 +++++---
 terminal_backend.go |  9 ++++++---
 tty.go              | 12 +++++++-----
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/app.go b/app.go
index 85a3a56..6ce96c7 100644
--- a/app.go
+++ b/app.go
@@ -398,15 +398,17 @@ func (a *appRunner) init() error {
 }
 
 func (a *appRunner) restore() error {
+	var errs []error
+
 	if err := a.restoreTerminal(); err != nil {
-		return fmt.Errorf("restore terminal: %w", err)
+		errs = append(errs, fmt.Errorf("restore terminal: %w", err))
 	}
 
 	if err := a.terminal.LeaveAlternateScreen(); err != nil {
-		return fmt.Errorf("leave alt screen buffer: %w", err)
+		errs = append(errs, fmt.Errorf("leave alt screen buffer: %w", err))
 	}
 
-	return nil
+	return errors.Join(errs...)
 }
 
 // channelHandlers manages the series of channels returned by various processes.
diff --git a/terminal_backend.go b/terminal_backend.go
index 42a61b4..1820dca 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -2,6 +2,7 @@ package bento
 
 import (
 	"bufio"
+	"errors"
 	"fmt"
 	"io"
 
@@ -83,11 +84,13 @@ func (d *DefaultBackend) Read(p []byte) (n int, err error) {
 }
 
 func (d *DefaultBackend) DisableRawMode() error {
+	var errs []error
+
 	if d.input != nil && d.prevInputState != nil {
 		fd, ok := d.inputFd()
 		if ok {
 			if err := term.Restore(fd, d.prevInputState); err != nil {
-				return fmt.Errorf("restore input: %w", err)
+				errs = append(errs, fmt.Errorf("restore input: %w", err))
 			}
 		}
 	}
@@ -96,12 +99,12 @@ func (d *DefaultBackend) DisableRawMode() error {
 		fd, ok := d.outputFd()
 		if ok {
 			if err := term.Restore(fd, d.prevOutputState); err != nil {
-				return fmt.Errorf("restore output: %w", err)
+				errs = append(errs, fmt.Errorf("restore output: %w", err))
 			}
 		}
 	}
 
-	return nil
+	return errors.Join(errs...)
 }
 
 // ClearAfterCursor implements TerminalBackend.
diff --git a/tty.go b/tty.go
index b6c168a..86b3614 100644
--- a/tty.go
+++ b/tty.go
@@ -22,14 +22,16 @@ func (a *appRunner) initTerminal() error {
 }
 
 // restoreTerminal restores the terminal to the state prior to running the
-// Bento app.
+// Bento app. A step that fails does not prevent the other ones.
 func (a *appRunner) restoreTerminal() error {
+	var errs []error
+
 	if err := a.terminal.DisableBracketedPaste(); err != nil {
-		return fmt.Errorf("disable bracketed paste: %w", err)
+		errs = append(errs, fmt.Errorf("disable bracketed paste: %w", err))
 	}
 
 	if err := a.terminal.ShowCursor(); err != nil {
-		return fmt.Errorf("show cursor: %w", err)
+		errs = append(errs, fmt.Errorf("show cursor: %w", err))
 	}
 	// a.disableMouse()
 
@@ -44,10 +46,10 @@ func (a *appRunner) restoreTerminal() error {
 	// time.Sleep(time.Millisecond * 10) //nolint:gomnd
 	// }
 	if err := a.terminal.DisableRawMode(); err != nil {
-		return fmt.Errorf("disable raw mode: %w", err)
+		errs = append(errs, fmt.Errorf("disable raw mode: %w", err))
 	}
 
-	return nil
+	return errors.Join(errs...)
 }
 
 func (a *appRunner) initCancelReader() error {
-- 
2.43.0


From 704d5d8518ad6ab2b433fcc9543a1e285f51ba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 03/42] fix: cancel, wait for and close the input reader on
 shutdown

---
 app.go |  8 +++++++-
 tty.go | 18 ++++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/app.go b/app.go
index 6ce96c7..45a644c 100644
--- a/app.go
+++ b/app.go
@@ -126,6 +126,10 @@ func (a App) Run() (Model, error) {
 	backend := NewDefaultBackend(input, a.output)
 	terminal, err := NewTerminal(&backend, ViewportFullscreen{})
 	if err != nil {
+		if closeInput != nil {
+			_ = closeInput()
+		}
+
 		return nil, fmt.Errorf("new terminal: %w", err)
 	}
 
@@ -372,7 +376,9 @@ func (a *appRunner) shutdown() error {
 
 		a.handlers.shutdown()
 
-		a.shutdownErr = a.restore()
+		readerErr := a.closeCancelReader()
+
+		a.shutdownErr = errors.Join(readerErr, a.restore())
 	})
 
 	return a.shutdownErr
diff --git a/tty.go b/tty.go
index 86b3614..33baba1 100644
--- a/tty.go
+++ b/tty.go
@@ -78,6 +78,24 @@ func (a *appRunner) readLoop() {
 	}
 }
 
+// closeCancelReader unblocks the read loop, waits for it and releases the
+// reader.
+func (a *appRunner) closeCancelReader() error {
+	if a.cancelReader == nil {
+		return nil
+	}
+
+	if a.cancelReader.Cancel() {
+		a.waitForReadLoop()
+	}
+
+	if err := a.cancelReader.Close(); err != nil {
+		return fmt.Errorf("close input reader: %w", err)
+	}
+
+	return nil
+}
+
 // waitForReadLoop waits for the cancelReader to finish its read loop.
 func (a *appRunner) waitForReadLoop() {
 	select {
-- 
2.43.0


From f6e4ddb831b6ababd96233d6d4a735707326ff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 04/42] fix: read from the input file so that reading can be
 canceled

---
 tty.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tty.go b/tty.go
index 33baba1..b2a32f9 100644
--- a/tty.go
+++ b/tty.go
@@ -53,7 +53,8 @@ func (a *appRunner) restoreTerminal() error {
 }
 
 func (a *appRunner) initCancelReader() error {
-	r, err := newInputReader(a.terminal)
+	// The input itself, since a reader wrapped around a file can not be canceled.
+	r, err := newInputReader(a.terminal.Input())
 	if err != nil {
 		return fmt.Errorf("new reader: %w", err)
 	}
-- 
2.43.0


From d2caa4c7d54835ac5cd405994a054a5312d3d3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 05/42] fix: do not block forever on cancellation or on a draw
 error

---
 app.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/app.go b/app.go
index 45a644c..ac0c353 100644
--- a/app.go
+++ b/app.go
@@ -216,7 +216,11 @@ func (a *appRunner) Run() (model Model, err error) {
 	}
 
 	a.initModel()
-	a.draw(a.model)
+
+	err = a.draw(a.model)
+	if err != nil {
+		return a.model, err
+	}
 
 	err = a.initCancelReader()
 	if err != nil {
@@ -239,7 +243,10 @@ func (a *appRunner) Run() (model Model, err error) {
 		return model, err
 	}
 
-	a.draw(model)
+	err = a.draw(model)
+	if err != nil {
+		return model, err
+	}
 
 	return model, nil
 }
@@ -354,8 +361,16 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 
 			var cmd Cmd
 			model, cmd = model.Update(msg) // run update
-			a.cmds <- cmd
-			a.draw(model)
+
+			select {
+			case a.cmds <- cmd:
+			case <-a.ctx.Done():
+				return model, nil
+			}
+
+			if err := a.draw(model); err != nil {
+				return model, err
+			}
 		}
 	}
 }
@@ -384,11 +399,12 @@ func (a *appRunner) shutdown() error {
 	return a.shutdownErr
 }
 
-func (a *appRunner) draw(widget Widget) {
-	_, err := a.terminal.Draw(widget)
-	if err != nil {
-		a.errs <- err
+func (a *appRunner) draw(widget Widget) error {
+	if _, err := a.terminal.Draw(widget); err != nil {
+		return fmt.Errorf("draw: %w", err)
 	}
+
+	return nil
 }
 
 func (a *appRunner) init() error {
-- 
2.43.0


From cc32bce43c8e3d39475e89b2d933c13ba63c3767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 06/42] fix: contain panics of every goroutine that runs user
 code

---
 app.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/app.go b/app.go
index ac0c353..98b52e3 100644
--- a/app.go
+++ b/app.go
@@ -208,7 +208,7 @@ func (a *appRunner) Run() (model Model, err error) {
 		}
 	}()
 
-	defer a.recoverFromPanic()
+	defer a.recoverFromPanic(&err)
 
 	err = a.init()
 	if err != nil {
@@ -291,7 +291,7 @@ func (a *appRunner) handleCmd(cmd Cmd) {
 	// possible to cancel them so we'll have to leak the goroutine
 	// until Cmd returns.
 	go func() {
-		defer a.recoverFromPanic()
+		defer a.reportPanic()
 
 		msg := cmd() // this can be long.
 		a.Send(msg)
@@ -333,6 +333,8 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 				}
 			case sequenceMsg:
 				go func() {
+					defer a.reportPanic()
+
 					// Execute commands one at a time, in order.
 					for _, cmd := range msg {
 						if cmd == nil {
@@ -345,6 +347,8 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 							for _, cmd := range batchMsg {
 								cmd := cmd
 								g.Go(func() error {
+									defer a.reportPanic()
+
 									a.Send(cmd())
 									return nil
 								})
@@ -375,9 +379,25 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 	}
 }
 
-func (a *appRunner) recoverFromPanic() {
+// reportPanic makes the event loop, and so [App.Run], return an error for a
+// panic of the goroutine it is deferred in.
+func (a *appRunner) reportPanic() {
 	if r := recover(); r != nil {
-		a.shutdown()
+		err := fmt.Errorf("caught panic: %v\n\n%s", r, debug.Stack())
+
+		select {
+		case a.errs <- err:
+		case <-a.ctx.Done():
+		}
+	}
+}
+
+// recoverFromPanic restores the terminal and turns a panic of the function it
+// is deferred in into an error.
+func (a *appRunner) recoverFromPanic(err *error) {
+	if r := recover(); r != nil {
+		*err = errors.Join(fmt.Errorf("caught panic: %v", r), a.shutdown())
+
 		fmt.Printf("Caught panic:\n\n%s\n\nRestoring terminal...\n\n", r)
 		debug.PrintStack()
 	}
-- 
2.43.0


From 96f98a884c0960d006e001a35835426342044140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 07/42] fix: run the commands of a batch

---
 app.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/app.go b/app.go
index 98b52e3..49a0c86 100644
--- a/app.go
+++ b/app.go
@@ -331,6 +331,16 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 				if err := a.terminal.Resize(NewRect(msg.Width, msg.Height)); err != nil {
 					return model, fmt.Errorf("resize: %w", err)
 				}
+			case BatchMsg:
+				for _, cmd := range msg {
+					select {
+					case a.cmds <- cmd:
+					case <-a.ctx.Done():
+						return model, nil
+					}
+				}
+
+				continue
 			case sequenceMsg:
 				go func() {
 					defer a.reportPanic()
-- 
2.43.0


From b24a28d19744a5438e982cdb5c1964d9244305f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 08/42] fix: Padding.WithLeft sets the left padding

---
 padding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padding.go b/padding.go
index ba0906c..7a59a52 100644
--- a/padding.go
+++ b/padding.go
@@ -49,6 +49,6 @@ func (p Padding) WithBottom(s int) Padding {
 }
 
 func (p Padding) WithLeft(s int) Padding {
-	p.Bottom = s
+	p.Left = s
 	return p
 }
-- 
2.43.0


From 5c973ae0c30a1bc906c0ba7dd3bb2493bbcb0971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 09/42] fix: set the colour that is present when the other one
 is absent

---
 internal/ansi/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/ansi/command.go b/internal/ansi/command.go
index 25d2aa8..ac34d2f 100644
--- a/internal/ansi/command.go
+++ b/internal/ansi/command.go
@@ -63,9 +63,9 @@ func (c SetColors) WriteANSI(w io.Writer) error {
 	switch {
 	case c.Foreground != nil && c.Background != nil:
 		return write(w, CSI+c.Foreground.Sequence(false)+";"+c.Background.Sequence(true)+"m")
-	case c.Foreground == nil && c.Background != nil:
-		return write(w, CSI+c.Foreground.Sequence(false)+"m")
 	case c.Foreground != nil && c.Background == nil:
+		return write(w, CSI+c.Foreground.Sequence(false)+"m")
+	case c.Foreground == nil && c.Background != nil:
 		return write(w, CSI+c.Background.Sequence(true)+"m")
 	default:
 		return nil
-- 
2.43.0


From 0e697e377c7fa5ab49eb2b3eeca88ab0799f778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 10/42] fix: do not reset attributes or keep a stale colour for
 a colour without a sequence

---
 terminal_backend.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/terminal_backend.go b/terminal_backend.go
index 1820dca..723fcd9 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -174,8 +174,8 @@ func (d *DefaultBackend) Draw(cells []PositionedCell) error {
 
 		if cell.Fg != fg || cell.Bg != bg {
 			if err := d.queue(ansi.SetColors(ansi.Colors{
-				Foreground: d.colorProfile.Convert(cell.Fg),
-				Background: d.colorProfile.Convert(cell.Bg),
+				Foreground: d.convertColor(cell.Fg),
+				Background: d.convertColor(cell.Bg),
 			})); err != nil {
 				return fmt.Errorf("queue: %w", err)
 			}
@@ -282,6 +282,19 @@ func (d *DefaultBackend) execute(commands ...ansi.Command) error {
 	return nil
 }
 
+// convertColor returns the color to use for c with the color profile of the
+// output. A color without a sequence of its own is the default one: an empty
+// sequence would reset all the attributes.
+func (d *DefaultBackend) convertColor(c Color) Color {
+	converted := d.colorProfile.Convert(c)
+
+	if _, ok := converted.(termenv.NoColor); ok || converted == nil {
+		return ResetColor{}
+	}
+
+	return converted
+}
+
 func (d *DefaultBackend) outputFd() (uintptr, bool) {
 	file, ok := d.output.(term.File)
 	if !ok {
-- 
2.43.0


From 7029d97d00f4d9b5c3f7e96fe250c811073dd9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 11/42] fix: emit the hidden modifier and keep a blink that is
 not removed

---
 terminal_backend.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/terminal_backend.go b/terminal_backend.go
index 723fcd9..ebcb540 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -352,6 +352,18 @@ func (d _StyleModifierDiff) queue(w io.Writer) error {
 
 	if removed.Contains(ModifierSlowBlink) || removed.Contains(ModifierRapidBlink) {
 		cmds = append(cmds, ansi.SetAttribute(ansi.AttrNoBlink))
+
+		if d.To.Contains(ModifierSlowBlink) {
+			cmds = append(cmds, ansi.SetAttribute(ansi.AttrSlowBlink))
+		}
+
+		if d.To.Contains(ModifierRapidBlink) {
+			cmds = append(cmds, ansi.SetAttribute(ansi.AttrRapidBlink))
+		}
+	}
+
+	if removed.Contains(ModifierHidden) {
+		cmds = append(cmds, ansi.SetAttribute(ansi.AttrNoHidden))
 	}
 
 	added := bit.Difference(d.To, d.From)
@@ -388,6 +400,10 @@ func (d _StyleModifierDiff) queue(w io.Writer) error {
 		cmds = append(cmds, ansi.SetAttribute(ansi.AttrRapidBlink))
 	}
 
+	if added.Contains(ModifierHidden) {
+		cmds = append(cmds, ansi.SetAttribute(ansi.AttrHidden))
+	}
+
 	if err := queue(w, cmds...); err != nil {
 		return fmt.Errorf("queue: %w", err)
 	}
-- 
2.43.0


From e500718ef3bc63fdf22043b7581dead7df515a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 12/42] fix: recognise a focus report followed by more input

---
 input.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/input.go b/input.go
index 4490cb3..a6e4419 100644
--- a/input.go
+++ b/input.go
@@ -720,9 +720,16 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 // nolint: gomnd
 func detectReportFocus(input []byte) (hasRF bool, width int, msg Msg) {
 	switch {
-	case bytes.Equal(input, []byte("\x1b[I")):
+	case bytes.HasPrefix(input, []byte("\x1b[I")):
 		return true, 3, FocusMsg{}
-	case bytes.Equal(input, []byte("\x1b[O")):
+	case bytes.HasPrefix(input, []byte("\x1b[O")):
+		// Some keys of urxvt have a longer sequence with the same prefix.
+		if len(input) > 3 {
+			if _, ok := extSequences[string(input[:4])]; ok {
+				return false, 0, nil
+			}
+		}
+
 		return true, 3, BlurMsg{}
 	}
 	return false, 0, nil
-- 
2.43.0


From f28d4d433116e7eb02f52f50a6339ab02557293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 13/42] fix: do not hand out the read buffer in a message

---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index a6e4419..3e39db1 100644
--- a/input.go
+++ b/input.go
@@ -841,7 +841,7 @@ func detectSequence(input []byte) (hasSeq bool, width int, msg Msg) {
 	}
 	// Is this an unknown CSI sequence?
 	if loc := unknownCSIRe.FindIndex(input); loc != nil {
-		return true, loc[1], unknownCSISequenceMsg(input[:loc[1]])
+		return true, loc[1], unknownCSISequenceMsg(bytes.Clone(input[:loc[1]]))
 	}
 
 	return false, 0, nil
-- 
2.43.0


From 97172fb53244f002e2a09641a48e64866bdaf15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 14/42] fix: match an SGR mouse event at the start of the input
 only

---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index 3e39db1..c5cb255 100644
--- a/input.go
+++ b/input.go
@@ -610,7 +610,7 @@ loop:
 
 var (
 	unknownCSIRe  = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*[\x40-\x7e]`)
-	mouseSGRRegex = regexp.MustCompile(`(\d+);(\d+);(\d+)([Mm])`)
+	mouseSGRRegex = regexp.MustCompile(`^(\d+);(\d+);(\d+)([Mm])`)
 )
 
 func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
-- 
2.43.0


From 1ed83bf079272c88cd7980d0daa17d9e56913750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 15/42] fix: alt+insert is the insert sequence with the alt
 modifier

---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index c5cb255..ccc33e1 100644
--- a/input.go
+++ b/input.go
@@ -406,7 +406,7 @@ var sequences = map[string]Key{
 	"\x1b[Z": {Type: KeyShiftTab},
 
 	"\x1b[2~":   {Type: KeyInsert},
-	"\x1b[3;2~": {Type: KeyInsert, Alt: true},
+	"\x1b[2;3~": {Type: KeyInsert, Alt: true},
 
 	"\x1b[3~":   {Type: KeyDelete},
 	"\x1b[3;3~": {Type: KeyDelete, Alt: true},
-- 
2.43.0


From b6c1e9c5cd5e6fb2c2a4dbd231709d8388ac0563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 16/42] fix: decode the Windows control characters of ctrl+[,
 ctrl+] and ctrl+^

---
 key_windows.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/key_windows.go b/key_windows.go
index 18bd907..b408f88 100644
--- a/key_windows.go
+++ b/key_windows.go
@@ -311,9 +311,13 @@ func keyType(e coninput.KeyEventRecord) KeyType {
 		case '\x1a':
 			return KeyCtrlZ
 		case '\x1b':
-			return KeyCtrlCloseBracket
+			return KeyCtrlOpenBracket
 		case '\x1c':
 			return KeyCtrlBackslash
+		case '\x1d':
+			return KeyCtrlCloseBracket
+		case '\x1e':
+			return KeyCtrlCaret
 		case '\x1f':
 			return KeyCtrlUnderscore
 		}
-- 
2.43.0


From 0b908dad3c8e09a043f9c237132a3473de95ad65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 17/42] fix: do not share the runes of the key table with
 messages

---
 input.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/input.go b/input.go
index ccc33e1..a5e724c 100644
--- a/input.go
+++ b/input.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"regexp"
+	"slices"
 	"sort"
 	"strings"
 	"unicode/utf8"
@@ -836,6 +837,8 @@ func detectSequence(input []byte) (hasSeq bool, width int, msg Msg) {
 		prefix := input[:sz]
 		key, ok := seqs[string(prefix)]
 		if ok {
+			key.Runes = slices.Clone(key.Runes)
+
 			return true, sz, KeyMsg(key)
 		}
 	}
-- 
2.43.0


From 2f9a9f219387c67dc22533b269c37d59b24622bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 18/42] fix: solver symbols do not wrap around

---
 internal/casso/casso.go  | 2 +-
 internal/casso/solver.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/casso/casso.go b/internal/casso/casso.go
index 1487d5b..c04cd62 100644
--- a/internal/casso/casso.go
+++ b/internal/casso/casso.go
@@ -182,7 +182,7 @@ const (
 )
 
 type _Symbol struct {
-	Value uint8
+	Value uint64
 	Type  SymbolType
 }
 
diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index fd223d3..51614b4 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -24,7 +24,7 @@ type _EditInfo struct {
 type _VariableData struct {
 	constant float64
 	symbol   _Symbol
-	id       uint8
+	id       uint64
 }
 
 type Solver struct {
@@ -39,7 +39,7 @@ type Solver struct {
 	infeasibleRows     []_Symbol
 	objective          _Row
 	artificial         *_Row
-	idTick             uint8
+	idTick             uint64
 }
 
 func NewSolver() Solver {
-- 
2.43.0


From d32baab07a02c75a8a9381ff5faba350a91d60f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 19/42] fix: the solution of a layout does not depend on map
 iteration order

---
 internal/casso/solver.go | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index 51614b4..658aa88 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -303,7 +303,7 @@ func (s *Solver) getLeavingRow(entering _Symbol) (_Symbol, _Row, bool) {
 			if temp < 0 {
 				tempRatio := -r.constant / temp
 
-				if tempRatio < ratio {
+				if tempRatio < ratio || (tempRatio == ratio && ok && s.Value < found.Value) {
 					ratio = tempRatio
 					found = s
 					ok = true
@@ -429,10 +429,11 @@ func (s *Solver) getVarSymbol(v Variable) _Symbol {
 }
 
 func chooseSubject(row _Row, tag _Tag) _Symbol {
-	for s := range row.cells {
-		if s.Type == SymbolTypeExternal {
-			return s
-		}
+	external := firstSymbol(row, func(s _Symbol, _ float64) bool {
+		return s.Type == SymbolTypeExternal
+	})
+	if external.Type != SymbolTypeInvalid {
+		return external
 	}
 
 	for _, s := range []_Symbol{tag.marker, tag.other} {
@@ -458,22 +459,27 @@ func allDummies(row _Row) bool {
 }
 
 func getEnteringSymbol(objective _Row) _Symbol {
-	for s, v := range objective.cells {
-		if s.Type != SymbolTypeDummy && v < 0 {
-			return s
-		}
-	}
-
-	return newInvalidSymbol()
+	return firstSymbol(objective, func(s _Symbol, v float64) bool {
+		return s.Type != SymbolTypeDummy && v < 0
+	})
 }
 
 func anyPivotableSymbol(row _Row) _Symbol {
-	for s := range row.cells {
-		switch s.Type {
-		case SymbolTypeSlack, SymbolTypeError:
-			return s
+	return firstSymbol(row, func(s _Symbol, _ float64) bool {
+		return s.Type == SymbolTypeSlack || s.Type == SymbolTypeError
+	})
+}
+
+// firstSymbol returns the oldest symbol of the row that satisfies the predicate,
+// so that the solution does not depend on the iteration order of a map.
+func firstSymbol(row _Row, pred func(s _Symbol, coefficient float64) bool) _Symbol {
+	first := newInvalidSymbol()
+
+	for s, v := range row.cells {
+		if pred(s, v) && (first.Type == SymbolTypeInvalid || s.Value < first.Value) {
+			first = s
 		}
 	}
 
-	return newInvalidSymbol()
+	return first
 }
-- 
2.43.0


From 4f37b966d61433939a9936cbf47d233e9b58be51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 20/42] fix: variables created concurrently are distinct

---
 internal/casso/casso.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/casso/casso.go b/internal/casso/casso.go
index c04cd62..1deb70e 100644
--- a/internal/casso/casso.go
+++ b/internal/casso/casso.go
@@ -28,9 +28,7 @@ var _variableID = atomic.Uint64{}
 type Variable uint64
 
 func NewVariable() Variable {
-	defer _variableID.Add(1)
-
-	return Variable(_variableID.Load())
+	return Variable(_variableID.Add(1) - 1)
 }
 
 type Term struct {
-- 
2.43.0


From 2e423789ca90c60e25e9ac7a4e915c7f4404bee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 21/42] fix: forget the changes that have been fetched already

---
 internal/casso/solver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index 658aa88..87f0b2a 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -130,7 +130,7 @@ func (s *Solver) FetchChanges() []PublicChange {
 		s.shouldClearChanges = true
 	}
 
-	clear(s.publicChanges)
+	s.publicChanges = nil
 
 	for v := range s.changed {
 		if varData, ok := s.varData[v]; ok {
@@ -177,7 +177,7 @@ func (s *Solver) Reset() {
 	s.shouldClearChanges = false
 
 	clear(s.edits)
-	clear(s.infeasibleRows)
+	s.infeasibleRows = nil
 
 	s.objective = newRow(0)
 	s.artificial = nil
-- 
2.43.0


From 59204b906b7d08473a13dfb69146632debbe946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 22/42] fix: wrapped lines start from empty buffers

---
 internal/reflow/wrapper.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index b406f41..2d771a6 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -52,9 +52,9 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		nonWhitespacePrevious bool
 	)
 
-	clear(ww.pendingWord)
+	ww.pendingWord = ww.pendingWord[:0]
 	ww.pendingWhitespace.Clear()
-	clear(pendingLine)
+	pendingLine = pendingLine[:0]
 
 	for _, g := range lineSymbols {
 		isWhitespace := g.IsWhitespace()
@@ -78,7 +78,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 			}
 
 			pendingLine = append(pendingLine, ww.pendingWord...)
-			clear(ww.pendingWord)
+			ww.pendingWord = ww.pendingWord[:0]
 
 			lineWidth += wordWidth
 
@@ -94,7 +94,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 			remainingWidth := max(0, ww.maxLineWidth-lineWidth)
 
 			ww.wrappedLines.PushBack(slices.Clone(pendingLine))
-			clear(pendingLine)
+			pendingLine = pendingLine[:0]
 
 			lineWidth = 0
 
@@ -142,7 +142,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 	}
 
 	pendingLine = append(pendingLine, ww.pendingWord...)
-	clear(ww.pendingWord)
+	ww.pendingWord = ww.pendingWord[:0]
 
 	if len(pendingLine) > 0 {
 		ww.wrappedLines.PushBack(pendingLine)
-- 
2.43.0


From 46963bb5fb8ca89385cf8300881d105ec5fe1cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 23/42] fix: the truncator returns the lines of a text one at a
 time

---
 internal/reflow/truncator.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internal/reflow/truncator.go b/internal/reflow/truncator.go
index e891787..9647953 100644
--- a/internal/reflow/truncator.go
+++ b/internal/reflow/truncator.go
@@ -35,7 +35,7 @@ func (lt *LineTruncator) NextLine() (WrappedLine, bool) {
 		return WrappedLine{}, false
 	}
 
-	clear(lt.currentLine)
+	lt.currentLine = lt.currentLine[:0]
 
 	var currentLineWidth int
 
@@ -43,9 +43,7 @@ func (lt *LineTruncator) NextLine() (WrappedLine, bool) {
 	horizontalOffset := lt.horizontalOffset
 	currentAlignment := bento.AlignmentLeft
 
-	var lastIndex int
-	for i, line := range lt.inputLines {
-		lastIndex = i
+	for _, line := range lt.inputLines[:min(len(lt.inputLines), 1)] {
 		currentLine := line.Graphemes
 		currentAlignment = line.Alignment
 		alignment := line.Alignment
@@ -83,7 +81,7 @@ func (lt *LineTruncator) NextLine() (WrappedLine, bool) {
 		}
 	}
 
-	lt.inputLines = lt.inputLines[min(len(lt.inputLines), lastIndex+1):]
+	lt.inputLines = lt.inputLines[min(len(lt.inputLines), 1):]
 
 	if linesExhausted {
 		return WrappedLine{}, false
-- 
2.43.0


From c582caf618ea8c3f576f2bc80a3a4a7ae8f07be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 24/42] fix: a paragraph does not draw past the right edge of
 its area

---
 widget/paragraphwidget/paragraph.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/widget/paragraphwidget/paragraph.go b/widget/paragraphwidget/paragraph.go
index 7427a82..738e96e 100644
--- a/widget/paragraphwidget/paragraph.go
+++ b/widget/paragraphwidget/paragraph.go
@@ -149,6 +149,10 @@ func (p Paragraph) renderText(composer reflow.LineComposer, area bento.Rect, buf
 					continue
 				}
 
+				if x+width > area.Width {
+					break
+				}
+
 				symbol := grapheme.String()
 				if len(symbol) == 0 {
 					symbol = " "
-- 
2.43.0


From 15d4a9c50a6c2563e0f0d4a5447ebc6cab98cbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 25/42] fix: SetStringN skips zero-width graphemes and stops
 before a grapheme that does not fit

---
 buffer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/buffer.go b/buffer.go
index 9c33822..4078a63 100644
--- a/buffer.go
+++ b/buffer.go
@@ -113,6 +113,14 @@ func (b *Buffer) SetStringN(x, y int, value string, maxWidth int, style Style) (
 		symbol := graphemes.Str()
 		width := graphemes.Width()
 
+		if width == 0 {
+			continue
+		}
+
+		if width > remainingWidth {
+			break
+		}
+
 		remainingWidth -= width
 
 		b.CellAt(Position{x, y}).SetSymbol(symbol).SetStyle(style)
-- 
2.43.0


From f14f941f5d264b9c2ee0968263010a701ae92799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 26/42] fix: extending a value does not overwrite what other
 copies of it hold

---
 internal/casso/operators.go | 4 ++--
 layout.go                   | 3 ++-
 widget/blockwidget/block.go | 2 +-
 widget/textwidget/line.go   | 4 ++--
 widget/textwidget/text.go   | 6 ++++--
 5 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/internal/casso/operators.go b/internal/casso/operators.go
index b110b63..59ddb2d 100644
--- a/internal/casso/operators.go
+++ b/internal/casso/operators.go
@@ -14,14 +14,14 @@ func (e Expression) SubConstant(other float64) Expression {
 func (e Expression) Sub(other Expression) Expression {
 	other = other.Negate()
 
-	e.Terms = append(e.Terms, other.Terms...)
+	e.Terms = append(slices.Clip(e.Terms), other.Terms...)
 	e.Constant += other.Constant
 
 	return e
 }
 
 func (e Expression) SubVariable(other Variable) Expression {
-	e.Terms = append(e.Terms, NewTerm(other, -1.0))
+	e.Terms = append(slices.Clip(e.Terms), NewTerm(other, -1.0))
 
 	return e
 }
diff --git a/layout.go b/layout.go
index f6f1b9c..09321f3 100644
--- a/layout.go
+++ b/layout.go
@@ -3,6 +3,7 @@ package bento
 import (
 	"fmt"
 	"math"
+	"slices"
 
 	"github.com/metafates/bento/internal/casso"
 )
@@ -99,7 +100,7 @@ func (l Layout) WithSpacing(spacing Spacing) Layout {
 }
 
 func (l Layout) WithConstraints(constraints ...Constraint) Layout {
-	l.Constraints = append(l.Constraints, constraints...)
+	l.Constraints = append(slices.Clip(l.Constraints), constraints...)
 	return l
 }
 
diff --git a/widget/blockwidget/block.go b/widget/blockwidget/block.go
index 773d471..c87120f 100644
--- a/widget/blockwidget/block.go
+++ b/widget/blockwidget/block.go
@@ -72,7 +72,7 @@ func (b Block) WithTitle(title Title) Block {
 		title.Line = title.Line.WithAlignment(title.Alignment)
 	}
 
-	b.titles = append(b.titles, title)
+	b.titles = append(slices.Clip(b.titles), title)
 	return b
 }
 
diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index e926608..08c7e86 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -133,12 +133,12 @@ func (l Line) String() string {
 }
 
 func (l Line) WithSpans(spans ...Span) Line {
-	l.Spans = append(l.Spans, spans...)
+	l.Spans = append(slices.Clip(l.Spans), spans...)
 	return l
 }
 
 func (l Line) WithSpansStr(spans ...string) Line {
-	l.Spans = slices.Grow(l.Spans, len(spans))
+	l.Spans = slices.Grow(slices.Clip(l.Spans), len(spans))
 
 	for _, s := range spans {
 		l.Spans = append(l.Spans, NewSpan(s))
diff --git a/widget/textwidget/text.go b/widget/textwidget/text.go
index ebd552b..56072ac 100644
--- a/widget/textwidget/text.go
+++ b/widget/textwidget/text.go
@@ -1,6 +1,8 @@
 package textwidget
 
 import (
+	"slices"
+
 	"github.com/metafates/bento"
 )
 
@@ -27,12 +29,12 @@ func NewText(lines ...Line) Text {
 }
 
 func (t Text) WithLines(lines ...Line) Text {
-	t.Lines = append(t.Lines, lines...)
+	t.Lines = append(slices.Clip(t.Lines), lines...)
 	return t
 }
 
 func (t Text) WithLinesStr(lines ...string) Text {
-	t.Lines = append(t.Lines, NewLinesStr(lines...)...)
+	t.Lines = append(slices.Clip(t.Lines), NewLinesStr(lines...)...)
 	return t
 }
 
-- 
2.43.0


From f323af17bc4e2531b436d257cf741a3c2a5cb9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 27/42] fix: a block is rendered within the buffer

---
 widget/blockwidget/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/blockwidget/block.go b/widget/blockwidget/block.go
index c87120f..7980179 100644
--- a/widget/blockwidget/block.go
+++ b/widget/blockwidget/block.go
@@ -165,7 +165,7 @@ func (b Block) hasTitleAtPosition(position TitlePosition) bool {
 }
 
 func (b Block) Render(area bento.Rect, buffer *bento.Buffer) {
-	area = area.Intersection(area)
+	area = area.Intersection(buffer.Area())
 	if area.IsEmpty() {
 		return
 	}
-- 
2.43.0


From cb444598b8c5c7ae66272971d59ed4c4fdd2134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 28/42] fix: reject a gauge ratio outside of 0..1

---
 widget/gaugewidget/gauge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/gaugewidget/gauge.go b/widget/gaugewidget/gauge.go
index 4916537..abd937a 100644
--- a/widget/gaugewidget/gauge.go
+++ b/widget/gaugewidget/gauge.go
@@ -41,7 +41,7 @@ func New() Gauge {
 //
 // See [Gauge.WithPercent] to set from a percentage.
 func (g Gauge) WithRatio(ratio float64) Gauge {
-	if ratio < 0 && ratio > 1 {
+	if !(ratio >= 0 && ratio <= 1) {
 		panic("ratio should be between 0 and 1 inclusively")
 	}
 
-- 
2.43.0


From d3dc14679355bd2f235fef3cd2b4f5d61bf1c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 29/42] fix: a bottom scrollbar takes the last row and a top
 one the first row

---
 widget/scrollwidget/scroll.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index a521405..7fa7e12 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -265,7 +265,7 @@ func (s Scroll) scrollbarArea(area bento.Rect) (bento.Rect, bool) {
 			return bento.Rect{}, false
 		}
 
-		return rows[0], true
+		return rows[len(rows)-1], true
 
 	case OrientationHorizontalTop:
 		rows := area.Rows()
@@ -273,7 +273,7 @@ func (s Scroll) scrollbarArea(area bento.Rect) (bento.Rect, bool) {
 			return bento.Rect{}, false
 		}
 
-		return rows[len(rows)-1], true
+		return rows[0], true
 
 	default:
 		return bento.Rect{}, false
-- 
2.43.0


From 65dfc009e80d9dc0c9a2b042abc5c68a5ea1af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 30/42] fix: the arrows of a vertical scrollbar point up and
 down

---
 widget/scrollwidget/set.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/widget/scrollwidget/set.go b/widget/scrollwidget/set.go
index c837277..980abc2 100644
--- a/widget/scrollwidget/set.go
+++ b/widget/scrollwidget/set.go
@@ -48,8 +48,8 @@ var _doubleVertical = Set{
 var _vertical = Set{
 	Track: symbol.LineVertical,
 	Thumb: symbol.BlockFull,
-	Begin: symbol.ArrowLeft,
-	End:   symbol.ArrowRight,
+	Begin: symbol.ArrowUp,
+	End:   symbol.ArrowDown,
 }
 
 var _doubleHorizontal = Set{
-- 
2.43.0


From 5f83876fe076abec7dee7769390a594b940cb253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 31/42] fix: an absent arrow head does not take a slot of the
 scrollbar

---
 widget/scrollwidget/scroll.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index 7fa7e12..c5255e2 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -143,7 +143,7 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 	}
 
 	// <
-	symbols := []*_Symbol{begin}
+	symbols := symbolSlots(begin)
 
 	// <═══
 	symbols = append(symbols, sliceutil.Repeat(track, trackStartLen)...)
@@ -155,11 +155,25 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 	symbols = append(symbols, sliceutil.Repeat(track, trackEndLen)...)
 
 	// <═══█████═══════>
-	symbols = append(symbols, end)
+	symbols = append(symbols, symbolSlots(end)...)
 
 	return symbols
 }
 
+// symbolSlots returns as many slots as the arrow head takes, see [Scroll.trackLenExcludingArrowHeads]
+func symbolSlots(symbol *_Symbol) []*_Symbol {
+	if symbol == nil {
+		return nil
+	}
+
+	slots := make([]*_Symbol, uniseg.StringWidth(symbol.Symbol))
+	if len(slots) > 0 {
+		slots[0] = symbol
+	}
+
+	return slots
+}
+
 // Calculates length of the track excluding the arrow heads
 //
 //	       ┌────────── track_length
-- 
2.43.0


From 7a7c847e96153af81cb5653dc65461dfb3aafe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 32/42] fix: keep lines longer than 64 KiB and what follows
 them

---
 widget/textwidget/line.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index 08c7e86..874ac56 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -1,7 +1,6 @@
 package textwidget
 
 import (
-	"bufio"
 	"slices"
 	"strings"
 
@@ -24,12 +23,8 @@ func NewLinesStr(s ...string) Lines {
 	if joined == "" {
 		lines = []Line{NewLineStr("")}
 	} else {
-		scanner := bufio.NewScanner(strings.NewReader(joined))
-
-		for scanner.Scan() {
-			line := NewLineStr(scanner.Text())
-
-			lines = append(lines, line)
+		for _, line := range splitLines(joined) {
+			lines = append(lines, NewLineStr(line))
 		}
 	}
 
@@ -107,19 +102,30 @@ func NewLine(spans ...Span) Line {
 }
 
 func NewLineStr(s string) Line {
-	lines := bufio.NewScanner(strings.NewReader(s))
-
 	var spans []Span
 
-	for lines.Scan() {
-		line := lines.Text()
-
+	for _, line := range splitLines(s) {
 		spans = append(spans, NewSpan(line))
 	}
 
 	return NewLine(spans...)
 }
 
+// splitLines splits a string into lines of any length, without line endings
+func splitLines(s string) []string {
+	var lines []string
+
+	for s != "" {
+		var line string
+
+		line, s, _ = strings.Cut(s, "\n")
+
+		lines = append(lines, strings.TrimSuffix(line, "\r"))
+	}
+
+	return lines
+}
+
 func (l Line) String() string {
 	var b strings.Builder
 
-- 
2.43.0


From 8793d72fa552af441eaf5c12c0e4296a073cb7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 33/42] fix: a line set into a buffer uses up the width it
 takes

---
 widget/textwidget/line.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index 874ac56..0896909 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -316,7 +316,7 @@ func setLine(x, y int, buffer *bento.Buffer, line *Line, maxWidth int) (int, int
 		w := max(0, newX-x)
 		x = newX
 
-		remainingWidth = max(0, remainingWidth, w)
+		remainingWidth = max(0, remainingWidth-w)
 	}
 
 	return x, y
-- 
2.43.0


From 40dd43b84a48aa5565a1d30aa35f6d23a53ed8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 34/42] fix: a paragraph without an alignment is aligned to the
 left

---
 widget/paragraphwidget/paragraph.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/widget/paragraphwidget/paragraph.go b/widget/paragraphwidget/paragraph.go
index 738e96e..3f891f7 100644
--- a/widget/paragraphwidget/paragraph.go
+++ b/widget/paragraphwidget/paragraph.go
@@ -110,6 +110,10 @@ func (p Paragraph) render(textArea bento.Rect, buffer *bento.Buffer) {
 			alignment = p.Alignment
 		}
 
+		if alignment == bento.AlignmentNone {
+			alignment = bento.AlignmentLeft
+		}
+
 		styled = append(styled, reflow.InputLine{
 			Graphemes: graphemes,
 			Alignment: alignment,
-- 
2.43.0


From 6bd8aa992fc861eed276152ec74b1fbe14c31ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 35/42] fix: a popup renders its content

---
 widget/popupwidget/popup.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/widget/popupwidget/popup.go b/widget/popupwidget/popup.go
index 5d6e1ed..1df46f1 100644
--- a/widget/popupwidget/popup.go
+++ b/widget/popupwidget/popup.go
@@ -103,6 +103,8 @@ func (p Popup) Render(area bento.Rect, buffer *bento.Buffer) {
 	vertical := bento.NewLayout(p.Height).Vertical().WithPadding(p.Padding).WithFlex(p.Vertical)
 	horizontal := bento.NewLayout(p.Width).Horizontal().WithPadding(p.Padding).WithFlex(p.Horizontal)
 
+	inner := p.Inner(area)
+
 	area = vertical.Split(area).Unwrap()
 	area = horizontal.Split(area).Unwrap()
 
@@ -112,4 +114,8 @@ func (p Popup) Render(area bento.Rect, buffer *bento.Buffer) {
 	if p.Block != nil {
 		p.Block.Render(area, buffer)
 	}
+
+	if p.Content != nil {
+		p.Content.Render(inner, buffer)
+	}
 }
-- 
2.43.0


From ea875876a6fa4a6252d7db4b659741ed3bf95479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 36/42] fix: the selection of a list does not overflow and its
 offset is not negative

---
 widget/listwidget/state.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/widget/listwidget/state.go b/widget/listwidget/state.go
index 4e8464c..1c2ac00 100644
--- a/widget/listwidget/state.go
+++ b/widget/listwidget/state.go
@@ -65,7 +65,7 @@ func (s *State) update(key bento.Key) bool {
 }
 
 func (s *State) SetOffset(offset int) {
-	s.offset = offset
+	s.offset = max(0, offset)
 }
 
 func (s *State) Select(index int) {
@@ -77,7 +77,7 @@ func (s *State) SelectNext() {
 	var next int
 
 	if s.selected != nil {
-		next = *s.selected + 1
+		next = saturatingAdd(*s.selected, 1)
 	}
 
 	s.Select(next)
@@ -108,7 +108,7 @@ func (s *State) ScrollDownBy(amount int) {
 		selected = *s.selected
 	}
 
-	s.Select(selected + amount)
+	s.Select(saturatingAdd(selected, amount))
 }
 
 func (s *State) ScrollUpBy(amount int) {
@@ -121,6 +121,15 @@ func (s *State) ScrollUpBy(amount int) {
 	s.Select(selected - amount)
 }
 
+// saturatingAdd adds to a non-negative index, which may be as large as [math.MaxInt], see [State.SelectLast]
+func saturatingAdd(index, amount int) int {
+	if amount > math.MaxInt-index {
+		return math.MaxInt
+	}
+
+	return index + amount
+}
+
 func (s *State) Unselect() {
 	s.selected = nil
 	s.offset = 0
-- 
2.43.0


From c9829b8d1f058eba7be86abfbf62b7182967bde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 37/42] fix: deleting the first word of an input leaves nothing
 of it

---
 widget/inputwidget/state.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/widget/inputwidget/state.go b/widget/inputwidget/state.go
index beb4d38..b680a34 100644
--- a/widget/inputwidget/state.go
+++ b/widget/inputwidget/state.go
@@ -91,11 +91,12 @@ func (s *State) deleteWhile(cond func(g grapheme.Grapheme) bool) {
 	current := under
 
 	for cond(current) {
+		s.MoveCursorLeft()
+
 		if len(before) == 0 {
-			current = grapheme.Grapheme{}
-			break
+			s.graphemes = after
+			return
 		}
-		s.MoveCursorLeft()
 
 		current = before[len(before)-1]
 		before = before[:len(before)-1]
-- 
2.43.0


From 151b465fe0ee7ce3305d79171b32df84d9752efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 38/42] fix: an input is rendered wherever its cursor is and
 however narrow its area is

---
 widget/inputwidget/input.go | 2 +-
 widget/inputwidget/state.go | 5 +----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/widget/inputwidget/input.go b/widget/inputwidget/input.go
index bf9410b..b52f8ef 100644
--- a/widget/inputwidget/input.go
+++ b/widget/inputwidget/input.go
@@ -116,7 +116,7 @@ func (i Input) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *Stat
 		Split(area).
 		Unwrap()
 
-	inputWidth := area.Width - uniseg.StringWidth(i.prompt) - 1 // 1 for cursor
+	inputWidth := max(0, area.Width-uniseg.StringWidth(i.prompt)-1) // 1 for cursor
 	firstVisibleIndex, lastVisibleIndex := state.getBounds(inputWidth)
 
 	state.offset = firstVisibleIndex
diff --git a/widget/inputwidget/state.go b/widget/inputwidget/state.go
index b680a34..001ac8b 100644
--- a/widget/inputwidget/state.go
+++ b/widget/inputwidget/state.go
@@ -239,10 +239,7 @@ func (s *State) getBounds(maxWidth int) (int, int) {
 		lastVisibleIndex++
 	}
 
-	indexToDisplay := offset
-	if s.cursor != 0 {
-		indexToDisplay = min(s.cursor-1, lastVisibleIndex)
-	}
+	indexToDisplay := max(0, s.cursor-1)
 
 	for indexToDisplay >= lastVisibleIndex {
 		widthFromOffset += s.graphemes[lastVisibleIndex].Width()
-- 
2.43.0


From 06e4ed81ba514d0ac42bace00d366630d174b6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 39/42] fix: deleting leading spaces of an input leaves nothing
 of them

---
 widget/inputwidget/state.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/widget/inputwidget/state.go b/widget/inputwidget/state.go
index 001ac8b..b1a68f4 100644
--- a/widget/inputwidget/state.go
+++ b/widget/inputwidget/state.go
@@ -88,6 +88,10 @@ func (s *State) DeleteWordUnderCursor() {
 func (s *State) deleteWhile(cond func(g grapheme.Grapheme) bool) {
 	before, under, after := s.splitAtCursor()
 
+	if under.IsEmpty() {
+		return
+	}
+
 	current := under
 
 	for cond(current) {
-- 
2.43.0


From 6eb25af9d95965ac701efddcf6dd9cd298a86c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 40/42] fix: report an error of the size of the output

---
 tty.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tty.go b/tty.go
index b2a32f9..b2bc41a 100644
--- a/tty.go
+++ b/tty.go
@@ -112,10 +112,6 @@ func (a *appRunner) waitForReadLoop() {
 // via a WindowSizeMsg.
 func (a *appRunner) checkResize() {
 	size, ok, err := a.terminal.Size()
-	if !ok {
-		return
-	}
-
 	if err != nil {
 		select {
 		case <-a.ctx.Done():
@@ -125,5 +121,9 @@ func (a *appRunner) checkResize() {
 		return
 	}
 
+	if !ok {
+		return
+	}
+
 	a.Send(WindowSizeMsg(size))
 }
-- 
2.43.0


From cb37dc465c3fe330afc5cba3f83a37d127ac592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:21 +0000
Subject: [PATCH 41/42] fix: an error of the shutdown is reported besides
 another error

---
 app.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app.go b/app.go
index 49a0c86..9eb8860 100644
--- a/app.go
+++ b/app.go
@@ -203,8 +203,8 @@ func (a *appRunner) Run() (model Model, err error) {
 
 	// Whatever the reason to leave, the terminal must be given back.
 	defer func() {
-		if shutdownErr := a.shutdown(); shutdownErr != nil && err == nil {
-			err = fmt.Errorf("shutdown: %w", shutdownErr)
+		if shutdownErr := a.shutdown(); shutdownErr != nil && !errors.Is(err, shutdownErr) {
+			err = errors.Join(err, fmt.Errorf("shutdown: %w", shutdownErr))
 		}
 	}()
 
-- 
2.43.0


From 7325f3bdc385ec1f6d869e39b64685f76d510e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:46 +0000
Subject: [PATCH 42/42] fix: space around surrounds every segment

---
 layout.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/layout.go b/layout.go
index 09321f3..c4cbe9f 100644
--- a/layout.go
+++ b/layout.go
@@ -427,11 +427,11 @@ func configureFlexConstraints(
 			}
 		}
 	case FlexSpaceAround:
-		if len(spacersExceptFirstAndLast) >= 2 {
-			for _, indices := range combinations(len(spacersExceptFirstAndLast), 2) {
+		if len(spacers) >= 2 {
+			for _, indices := range combinations(len(spacers), 2) {
 				i, j := indices[0], indices[1]
 
-				left, right := spacersExceptFirstAndLast[i], spacersExceptFirstAndLast[j]
+				left, right := spacers[i], spacers[j]
 
 				if err := solver.AddConstraint(left.hasSize(right.size(), _spacerSizeEq)); err != nil {
 					return fmt.Errorf("add has size constraint: %w", err)
@@ -439,7 +439,7 @@ func configureFlexConstraints(
 			}
 		}
 
-		for _, s := range spacersExceptFirstAndLast {
+		for _, s := range spacers {
 			err := solver.AddConstraints(
 				s.hasMinSize(spacing, _spacerSizeEq),
 				s.hasSize(area.size(), _spaceGrow),
-- 
2.43.0

