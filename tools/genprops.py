#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the texts stay readable)."""
import json, os

P = []

def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

# ---------------------------------------------------------------- runtime
p("R01", "The terminal is given back in its initial state on every exit from App.Run",
  "When App.Run returns, normally, with an error from any step, or because the model's Init, Update or Render panicked, every terminal mode it may have turned on has been turned off again: raw mode is disabled, the cursor is shown and the alternate screen is left. Each of these steps is attempted even if another one fails, and nothing turns a mode back on afterwards.",
  ["fault_sequences", "inputs", "histories"], "every combination of failing terminal operations, every point at which user code can panic, every way to leave the event loop",
  "No test runs App.Run at all; the guarantee quantifies over every error and panic exit of the start-up, the event loop and the shutdown.",
  ["app.go", "tty.go", "terminal.go", "terminal_backend.go"],
  [("deferred shutdown of the runner", "(*appRunner).Run / (*appRunner).shutdown"), ("restoration of every mode", "(*appRunner).restore, (*appRunner).restoreTerminal")])

p("R02", "The input source is cancelled, awaited and released on every exit",
  "Once App.Run has acquired the program's input it closes it (when it was opened by the program) on every exit, including failures of the set-up and panics of user code. The input reader, once created, is cancelled, then the read loop is awaited if the cancellation succeeded, and then the reader is closed, in that order and exactly once, on every exit.",
  ["fault_sequences", "histories"], "every error and panic exit after the input or its reader exists",
  "No test exercises the runner; leaks only show on the exits that fail.",
  ["app.go", "tty.go"],
  [("input ownership", "App.Run, (*appRunner).Run"), ("reader life cycle", "(*appRunner).initCancelReader, (*appRunner).closeCancelReader, (*appRunner).readLoop")])

p("R03", "Cancellation unblocks every channel operation of the runtime",
  "Every channel send or receive that the runtime performs, in the event loop, the read loops, the resize listener, the command dispatcher and the goroutines that run commands, is able to give up once the application's context is done (or is otherwise bounded by a timer or by a goroutine that itself obeys this rule). The context observed is the one the application was configured with, and cancelling it is what shutdown does.",
  ["schedules"], "every interleaving of cancellation with every pending channel operation",
  "A blocked send needs a particular interleaving with shutdown; no test starts the goroutines.",
  ["app.go", "tty.go", "signals_unix.go", "signals_windows.go", "input.go", "key_windows.go"],
  [("select with ctx.Done()", "(*appRunner).Send, (*appRunner).eventLoop, (*appRunner).handleCommands, (*appRunner).initModel, (*appRunner).listenForResize, readAnsiInputs, readConInputs"), ("context pairing", "NewApp, App.WithContext")])

p("R04", "Shutdown cancels, then waits for background loops that always signal completion",
  "Shutdown cancels the application's context before it waits for anything, and waits for every background goroutine that was registered before it touches the terminal. Each goroutine whose completion is awaited closes its completion channel exactly once on every exit, and a completion channel is registered for the command dispatcher, the resize listener and the delivery of the initial command.",
  ["schedules", "fault_sequences"], "all interleavings of shutdown with the background goroutines, every exit of each goroutine",
  "A missing close or a wait before cancellation hangs only under some schedules, which no test creates.",
  ["app.go", "tty.go", "signals_unix.go", "signals_windows.go"],
  [("shutdown order", "(*appRunner).shutdown"), ("registered handlers", "channelHandlers.add, channelHandlers.shutdown, (*appRunner).handleCommands, (*appRunner).handleResize, (*appRunner).initModel")])

p("R05", "A panic in user code never escapes the runtime",
  "A panic in a command, wherever the runtime runs it (on its own, in a batch, in a sequence or in a batch nested in a sequence), is recovered in the goroutine it happens in and reported to the event loop, which makes App.Run return an error. A panic in the model's Init, Update or Render makes App.Run return a non-nil error instead of propagating.",
  ["fault_sequences", "schedules"], "every call of user code by the runtime, in every goroutine",
  "An unrecovered panic in a goroutine kills the process with the terminal in raw mode; no test panics in a command.",
  ["app.go"],
  [("goroutine guards", "(*appRunner).reportPanic in handleCmd and eventLoop"), ("guard of the main goroutine", "(*appRunner).recoverFromPanic")])

p("R06", "Every message is dispatched exactly once, by its type",
  "A quit message ends the event loop without an error and without reaching the model; a nil message is ignored; a batch message hands each of its commands to the dispatcher and does not reach the model; every other message is passed to the current model's Update exactly once, the returned command is handed to the dispatcher, the returned model replaces the current one and is then drawn, before the next message is taken. A window size message additionally resizes the terminal to the reported width and height before the model sees it, and an error of a background goroutine ends the loop with that error.",
  ["histories", "inputs"], "every message type at every point of every run",
  "No test runs the event loop.",
  ["app.go"], [("event loop", "(*appRunner).eventLoop")])

p("R07", "Model and terminal are only touched from the goroutine of App.Run",
  "The model's Init, Update and Render and every operation that draws to or changes the terminal are only ever called on the goroutine that called App.Run; the goroutines the runtime starts for input, resize, commands and shutdown never reach them.",
  ["schedules"], "every goroutine the runtime starts",
  "A violation is a data race that shows only under contention; no test starts the goroutines.",
  ["app.go", "tty.go", "signals_unix.go", "input.go"], [("goroutine roots", "every go statement and errgroup task of the package")])

p("R08", "User commands never run on the event loop or the dispatcher",
  "The runtime calls a user's command only in a goroutine started for it, so that a slow command never delays message handling or shutdown. Batch drops nil commands and keeps every other one; the commands of a sequence run one at a time in order, each message being delivered before the next command starts, and a batch returned within a sequence is awaited before the sequence goes on.",
  ["schedules", "programs"], "every call of a command in the runtime, every list of commands",
  "Tests do not run commands; the guarantee is about which goroutine runs them.",
  ["app.go", "cmd.go"], [("command goroutines", "(*appRunner).handleCmd, (*appRunner).eventLoop"), ("combinators", "Batch, Sequence")])

p("R09", "Errors of the terminal and the input are never lost",
  "Every error returned by a terminal operation, by the input reader or by writing a control sequence is returned to the caller (wrapped so that errors.Is still finds it), joined into the error returned, sent to the event loop, or answered by taking an alternative; it is never overwritten or replaced by success. The only errors that may be discarded are those of closing the input and of end-of-input or cancellation of the reader.",
  ["fault_sequences"], "every call that can fail in the runtime, terminal and backend",
  "No test injects failing writers or terminals.",
  ["app.go", "tty.go", "terminal.go", "terminal_backend.go", "internal/ansi/command.go", "internal/ansi/raw.go", "terminal_backend_unix.go", "terminal_backend_windows.go", "inputreader_windows.go", "tty_unix.go", "tty_windows.go", "input.go"],
  [("error propagation", "every call whose last result is an error")])

# ---------------------------------------------------------------- terminal
p("T01", "Drawing a frame follows one protocol",
  "Terminal.Draw renders the widget exactly once into the current buffer over the whole viewport area, then sends the difference between the previous and the current buffer to the backend exactly once, then sets the cursor as the frame asks, and then, only if all of that succeeded, swaps the buffers, flushes the backend and counts the frame. If any of the backend operations fails, its error is returned and the frame is not counted.",
  ["fault_sequences", "histories"], "every failing backend operation, every cursor request",
  "No test draws a frame through a backend.",
  ["terminal.go", "frame.go"], [("frame protocol", "(*Terminal).Draw, (*Terminal).Flush, (*Terminal).GetFrame")])

p("T02", "The two frame buffers keep their roles",
  "The current and the previous buffer of a terminal are always the two distinct buffers it owns; swapping empties what becomes the current buffer and makes the drawn buffer the previous one. Resizing gives both buffers and the viewport the new area, clears the screen, and empties the previous buffer so that the next frame is drawn completely.",
  ["histories"], "every sequence of draws, swaps and resizes",
  "No test resizes or swaps.",
  ["terminal.go", "buffer.go"], [("double buffering", "(*Terminal).CurrentBuffer, (*Terminal).PreviousBuffer, (*Terminal).SwapBuffers, (*Terminal).Resize, (*Terminal).Clear")])

p("T03", "Every updated cell is printed where it belongs, with its own style",
  "When the backend draws a list of updated cells it prints the symbol of each of them, in order, exactly once, and whenever it prints one the terminal's cursor is at the cell's position and the terminal's current foreground, background and text attributes are those of the cell. After the last cell colours and attributes are reset.",
  ["inputs", "histories"], "every list of cells (positions, colours, modifiers, symbols of width one)",
  "The optimisation that skips redundant sequences depends on the history of cells; no test draws.",
  ["terminal_backend.go"], [("incremental drawing", "(*DefaultBackend).Draw"), ("colour conversion", "(*DefaultBackend).convertColor")])

p("T04", "Each terminal operation writes exactly its control sequence",
  "Each operation of the default backend (showing and hiding the cursor, moving it, clearing, entering and leaving the alternate screen, bracketed paste) writes exactly the ECMA-48/xterm control sequence of that operation, with one-based row and column in that order for cursor moves, and flushes it to the output before it returns success. Colour, attribute and print commands write exactly their sequence or text, and a list of commands is written completely and in order.",
  ["inputs"], "every operation and every position, colour, attribute and text",
  "No test looks at the bytes written.",
  ["terminal_backend.go", "internal/ansi/command.go", "internal/ansi/attr.go", "color.go"], [("sequences", "WriteANSI methods, Attr.SGR, (*DefaultBackend).execute, queue")])

p("T05", "Switching modifiers leaves exactly the requested attributes on",
  "For every pair of modifier sets, the attribute sequences emitted to go from the first to the second turn on every attribute of the second set and turn off every attribute that is only in the first, and leave no attribute on that is in neither, taking into account that one sequence can turn several attributes off (bold and dim; slow and rapid blink).",
  ["inputs"], "all pairs of the 512 modifier sets",
  "A quarter of a million pairs and a terminal's semantics; no test covers any.",
  ["terminal_backend.go", "internal/ansi/attr.go", "style.go"], [("attribute transition", "_StyleModifierDiff.queue"), ("codes", "Attr.SGR")])

p("T06", "Raw mode is undone with exactly the state that was saved",
  "The saved terminal state is the one obtained when raw mode was entered, for the same file, and disabling raw mode restores that state to that file; what was not changed is not restored, and a failure to restore one file does not prevent restoring the other.",
  ["configurations", "fault_sequences"], "terminal and non-terminal inputs and outputs, failing calls, Unix and Windows",
  "Needs a real terminal; no test has one.",
  ["terminal_backend.go", "terminal_backend_unix.go", "terminal_backend_windows.go"], [("save and restore", "(*DefaultBackend).EnableRawMode, (*DefaultBackend).DisableRawMode")])

# ---------------------------------------------------------------- style, geometry
p("S01", "Combining styles: the patch wins, everything else is kept",
  "Patching a style with another takes a colour from the patch if it sets one and keeps it otherwise, and a modifier is added (or removed) by the result exactly if the patch adds (removes) it, or if the patch does not mention it and the original adds (removes) it. Adding a modifier to a style or removing one changes exactly that modifier, and no style ever both adds and removes a modifier if the styles it is made of do not.",
  ["inputs"], "all styles, all modifier sets",
  "2^36 combinations of modifier sets.",
  ["style.go", "internal/bit/bit.go"], [("style algebra", "Style.Patched, Style.WithModifier, Style.WithoutModifier, Style.WithForeground, Style.WithBackground, shorthand methods")])

p("S02", "Applying a style to a cell changes exactly what the style sets",
  "Setting a style on a cell replaces the foreground and the background only if the style sets them, adds the style's added modifiers, removes its removed ones and keeps the others, and leaves the symbol alone. Resetting a cell makes it equal to an empty cell.",
  ["inputs"], "all cells and styles", "Unbounded combinations.",
  ["cell.go", "style.go"], [("cell update", "(*Cell).SetStyle, (*Cell).Reset, NewEmptyCell and setters")])

p("S03", "A setter changes its own option only",
  "Every exported method that returns a modified copy of a value (the With…, alignment, position, flex and similar builder methods of styles, rectangles, paddings, layouts and widgets) gives the named option the requested value and leaves every other option of the copy as it was.",
  ["inputs", "programs"], "every builder method, every receiver and argument",
  "About 150 methods; tests use a handful.",
  ["style.go", "rect.go", "padding.go", "layout.go", "widget"], [("builders", "value-receiver methods returning their receiver type")])

p("S04", "Building from a value never changes the original or its other copies",
  "Deriving a value (a line with more spans, a text with more lines, a block with another title, a layout with more constraints, a solver expression from another) never writes to memory shared with the value it was derived from, so that two values derived from the same one are independent.",
  ["programs", "histories"], "every order of derivations",
  "Needs spare capacity in a slice and two derivations from one value.",
  ["widget", "layout.go", "internal/casso/operators.go"], [("copy before append", "Line.WithSpans, Line.WithSpansStr, Text.WithLines, Text.WithLinesStr, Block.WithTitle, Layout.WithConstraints, Expression.Sub, Expression.SubVariable, Negate, MulConstant, DivConstant")])

p("S05", "Rectangle arithmetic is exact",
  "For rectangles of non-negative size: the intersection of two rectangles contains exactly the positions that are in both, and is never of negative size; Contains is true exactly for the positions from the left and top edges up to, but not including, the right and bottom ones; Inner shrinks by the padding on each side and is empty if it does not fit; Rows and Columns enumerate each row and column exactly once; and IndentX moves the left edge without ever making the width negative.",
  ["inputs"], "all rectangles and paddings of non-negative size", "Integers.",
  ["rect.go", "padding.go", "position.go"], [("rectangles", "Rect.Intersection, Rect.Contains, Rect.Inner, Rect.Rows, Rect.Columns, Rect.IndentX, Rect.Area and edges, NewPadding")])

p("B01", "A buffer always has one cell per position of its area",
  "Creating and resizing a buffer leaves it with exactly width times height cells. Position and index are inverse: the cell at a position inside the area is the one in its row and column, every access inside the area is within the buffer, and a position outside of the area is rejected instead of aliasing another cell.",
  ["inputs", "histories"], "all areas of non-negative size, all positions, all sequences of resizes",
  "Tests use small fixed sizes.",
  ["buffer.go"], [("indexing", "(*Buffer).indexOf, (*Buffer).CellAt, (*Buffer).PosOf"), ("sizing", "NewBufferFilled, (*Buffer).Resize")])

p("B02", "Writing a string stays within its line, its limit and the buffer",
  "Writing a string to a buffer only touches cells of the given line, from the given column on, and within both the requested maximum width and the right edge of the buffer; a grapheme is never split, the cells a wide grapheme covers are emptied, and zero-width graphemes are skipped. The position returned is the one after the last cell written.",
  ["inputs"], "all strings, positions inside the buffer and limits", "Unbounded text.",
  ["buffer.go"], [("text output", "(*Buffer).SetStringN, (*Buffer).SetString"), ("area style", "(*Buffer).SetStyle")])

# ---------------------------------------------------------------- widgets
p("W01", "Widgets draw only inside the area they are given",
  "Rendering any widget into an area that lies within the buffer only changes cells of that area, for every content, option and state, and never accesses a cell outside of the buffer, however small the area is (including empty ones). Text printed at a position stays in its row and within the columns it was given, and what an Inner method leaves of an area is inside of it.",
  ["inputs", "configurations"], "all areas within the buffer (which does not start at negative positions), all contents, options and states (paddings and scroll positions non-negative, scrollbar symbols at most one column wide)",
  "Tests render a few fixed sizes.",
  ["widget", "buffer.go"], [("render functions", "Render and RenderStateful of every widget")])

p("W02", "Rendering does not change the widget or its content",
  "Rendering a widget writes to nothing but the buffer and, for stateful widgets, the state it was given: the widget's own options, its text and items, the styles and any other shared data are the same after rendering as before.",
  ["histories", "programs"], "every widget and every number of renders",
  "A write through shared memory only shows in a later frame.",
  ["widget", "internal/reflow"], [("render functions", "Render and RenderStateful of every widget")])

p("W03", "Every option of a widget takes part in rendering it",
  "Every option that can be set on a widget, block, title, text, line, span or paragraph influences what rendering draws: for each of them rendering reads the value that was set.",
  ["configurations"], "every option of every widget", "Tests set a handful of options.",
  ["widget"], [("options", "fields of the widget structs"), ("render functions", "Render and RenderStateful")])

p("W04", "Symbol tables contain the glyphs they name",
  "Each border set, scrollbar set, arrow and line symbol is the Unicode box-drawing, block or arrow character of the named shape (corner in the named corner, line in the named direction and weight), and every border type, scrollbar symbol set and throbber type selects its own set.",
  ["configurations"], "every entry of every table", "No test looks at the tables.",
  ["symbol", "widget/blockwidget/border.go", "widget/scrollwidget/set.go", "widget/throbberwidget/set.go"], [("tables", "BorderType.Set, Symbols.Set, Type.Set, symbol constants")])

p("W05", "Selection, cursor and scroll state stay within their bounds",
  "Whatever sequence of operations is applied, a list's selected index and offset are never negative, a scrollbar moved by its next, previous, first and last operations stays between zero and the last position, and an input's cursor stays between zero and the number of graphemes. Moving by one changes the position by exactly one unless it is at the end already.",
  ["histories"], "all sequences of operations", "Sequences are unbounded.",
  ["widget/listwidget/state.go", "widget/scrollwidget/state.go", "widget/inputwidget/state.go"], [("state transitions", "methods of State")])

p("W06", "A block's inner area is what its borders, titles and padding leave",
  "The inner area of a block is its area reduced by one column for a left and for a right border, one row for a top border or title and for a bottom border or title, and the padding, and never has a negative size; each border side and corner is drawn on that side of the area with the glyph of that side, exactly if the side is enabled (a corner, if both of its sides are). The inner area of a scrollbar excludes exactly the row or column that the scrollbar is drawn on.",
  ["inputs", "configurations"], "all areas, border sets, titles and paddings", "Tests do not render blocks.",
  ["widget/blockwidget/block.go", "widget/scrollwidget/scroll.go"], [("inner area", "Block.Inner, Scroll.Inner, Scroll.scrollbarArea"), ("borders", "Block.renderBorders")])

# ---------------------------------------------------------------- input
p("I01", "Decoding input always progresses and never reads past what it was given",
  "For every sequence of input bytes, decoding one event consumes at least one byte and at most the bytes available, or reports that it needs more input only if more can come or a paste is still open; it never indexes outside of the bytes it was given. Bytes that were not consumed are decoded again, before the bytes read next, and in order.",
  ["inputs"], "all byte sequences and all chunkings by reads", "Unbounded input.",
  ["input.go", "mouse.go"], [("decoder", "detectOneMsg and its helpers"), ("read loop", "readAnsiInputs")])

p("I02", "Key tables map each sequence to the right key, with a unique name",
  "Every escape sequence in the key tables that xterm, the Linux console or urxvt send for a cursor, editing or function key is decoded to that key with exactly the modifiers it encodes; every control character is decoded to its control key; the alternatives prefixed with escape are the same key with Alt. Every key has a name of its own, formed of its modifiers and its base name.",
  ["inputs"], "every sequence of the tables", "No test reads keys.",
  ["input.go"], [("tables", "sequences, extSequences, seqLengths, keyNames")])

p("I03", "Messages do not share memory with the input buffer or the tables",
  "A message produced from the input does not alias the read buffer, which is overwritten by the next read, nor the key tables shared by all messages.",
  ["histories", "schedules"], "every message, read and later modification",
  "The corruption needs a later read while the message is still in use.",
  ["input.go"], [("copies", "detectSequence, detectBracketedPaste, detectOneMsg, readAnsiInputs")])

p("I04", "Mouse reports are decoded by the bits of the protocol",
  "For every button code of an SGR or X10 mouse report, button, action and modifiers are those the xterm protocol assigns: shift, alt and control from their bits, wheel and additional buttons from theirs, motion unless it is a wheel event, and release from the final byte in SGR reports and from button code three in X10 ones. Coordinates are zero-based.",
  ["inputs"], "all codes and coordinates", "No test decodes a mouse event.",
  ["mouse.go", "input.go"], [("mouse decoder", "parseMouseButton, parseSGRMouseEvent, parseX10MouseEvent")])

p("I05", "A state consumes a message exactly when it acts on it",
  "A widget state that is offered a message changes only if it reports the message as consumed, and a message of a kind or key it does not handle is reported as not consumed and leaves the state unchanged. In particular a throbber ignores ticks that are addressed to another throbber or are outdated.",
  ["inputs", "histories"], "all messages in all states", "Tests do not send messages.",
  ["widget/inputwidget/state.go", "widget/listwidget/state.go", "widget/throbberwidget/state.go"], [("updates", "TryUpdate of each State")])

# ---------------------------------------------------------------- layout
p("L01", "Layout results do not depend on map iteration order",
  "Splitting an area by the same layout always gives the same result: no choice that the layout engine or its constraint solver makes, and no value it returns, depends on the unspecified order in which a map is iterated.",
  ["histories", "schedules"], "every iteration order of every map",
  "The iteration order differs from run to run, and most orders agree.",
  ["internal/casso/casso.go", "internal/casso/solver.go", "layout.go"], [("pivot choices", "firstSymbol, getLeavingRow, FetchChanges, substitute")])

p("L02", "Layout constraints have the documented priorities and cover every segment",
  "Constraints of a layout are weighted in the documented order: the bounds of the area are required and apply to every segment and gap; empty outer gaps and the sizes of gaps outrank minimum and maximum, which outrank length, which outranks percentage, then ratio, then the minimum and maximum targets, then fill, then the proportions of fills and the growth of outer gaps, then the growth of gaps in between. Every kind of constraint and flex contributes its own constraint, with its own value, for each segment and gap it applies to, and none is stated besides. The areas returned are one per segment and one per gap, in order, next to each other: the solved positions rounded to cells along the direction of the layout, the whole (padded) area across it.",
  ["configurations", "inputs"], "every constraint kind and flex, both directions, all values and areas",
  "Tests check results of particular combinations, not which constraints were stated.",
  ["layout.go", "flex.go", "constraint.go", "internal/casso/casso.go", "internal/casso/operators.go"], [("strengths", "strength constants of the layout"), ("constraints", "configure… functions"), ("results", "changesToRects")])

p("L03", "Every kind of a closed set of choices is handled",
  "Wherever the program distinguishes the kinds of constraint, flex, direction, alignment, viewport, orientation, list direction, title position, key or relation, each kind declared is handled explicitly or by a default that applies to it; none falls through silently.",
  ["configurations"], "every declared kind, every place that distinguishes kinds", "Tests use some of the kinds.",
  ["layout.go", "terminal.go", "widget", "internal/casso/solver.go"], [("switches", "every switch over a declared kind")])

p("L04", "The solver identifies variables and symbols uniquely",
  "Every variable created is different from all others in the process, from whichever goroutine it is created, and every symbol the solver creates within one problem is different from the ones created before, so that no row or term of one constraint is confused with another's.",
  ["schedules", "histories"], "all concurrent splits, all numbers of variables", "Needs concurrency or many variables.",
  ["internal/casso/casso.go", "internal/casso/solver.go"], [("variable identity", "NewVariable"), ("symbol identity", "createRow, getVarSymbol, addWithArtificialVariable")])

# ---------------------------------------------------------------- not applicable
p("N01", "Split areas tile the inner area with the requested sizes",
  "For every layout the segments and gaps follow each other without overlap inside the padded area, and lengths, percentages, ratios and fills get the share they ask for where it is possible.",
  ["inputs"], "all layouts and areas", "Tests sample sizes.",
  ["layout.go", "internal/casso"], [("solver", "casso.Solver"), ("rounding", "changesToRects")])

p("N02", "Applying the difference of two buffers reproduces the second",
  "A terminal that shows the first buffer and prints the cells of the difference shows the second one, wide graphemes included.",
  ["inputs"], "all pairs of buffers", "Tests compare two pairs.",
  ["buffer.go"], [("difference", "(*Buffer).Diff")])

p("N03", "Decoding does not depend on how the input is cut into reads",
  "The events decoded from a byte stream are the same however the reads cut it.",
  ["inputs", "schedules"], "all streams and all cuts", "No test reads input.",
  ["input.go"], [("read loop", "readAnsiInputs")])

p("N04", "Wrapped paragraphs show all of the text, in order, within the width",
  "Wrapping a text neither loses nor repeats a visible grapheme that fits the width, keeps their order and never makes a line wider than the area.",
  ["inputs"], "all texts and widths", "Tests wrap no text.",
  ["internal/reflow"], [("wrapping", "WordWrapper, LineTruncator")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
