S = "screen.go"
PROPS = [
 dict(id="C01",
  title="Differential rendering: the terminal always shows the virtual screen",
  statement="For every history of virtual-screen contents and user-cursor states flushed frame by frame into one terminal, after each flush every terminal cell shows exactly the rune and rendition of the virtual screen (unset cells blank) and a visible user cursor is shown at its position with its rendition, a hidden one is hidden. Flushing never scrolls the terminal, never reprints a cell that has not changed since the previous flush, and emits nothing at all when nothing changed and the cursor stays hidden.",
  over=["histories", "inputs", "configurations"],
  quant="all sequences of frames (cells, text, rendition, clears, resizes, user cursor), all sizes, terminals that defer or clamp at the right margin and that do or do not erase with the current background",
  why="The tests compare the emitted bytes of a few hand-written frames; they never run the bytes through a terminal, and the defects live in the interplay of one frame's final cursor/rendition with the next frame's moves.",
  files=["screen.go", "state.go", "render.go", "cursor.go", "ansi/sgr.go"],
  mech=[("ScreenDiffer.WriteTo", "screen.go"), ("Screen.Update", "state.go"), ("WriteGrid", "render.go"), ("Cursor.To / MergeSGR", "state.go")],
  observe=["bytes produced by ScreenDiffer.WriteTo, Screen.Update, interpreted by a terminal"],
  technique="stateful property-based testing against an independent reference terminal",
  note="Random histories (rapid, shrinking); trusts the reference terminal in harness/vt, single-width runes, and a terminal whose rendition is plain before the first frame."),
 dict(id="C02",
  title="Full redraw: invalidation, resizing and suspension repaint everything",
  statement="After Invalidate or a change of size, whatever the terminal then shows, the next flush makes every terminal cell show the virtual screen again and leaves no foreign content behind. Leaving a terminal context (also temporarily, by RunWithout) makes the terminal cursor visible and its rendition plain, and coming back repaints the screen at the terminal's then current size.",
  over=["histories", "inputs", "configurations"],
  quant="all frame histories, all foreign terminal contents, cursor positions and renditions at the time of the invalidation, all sizes before and after, on a real pseudo terminal for the suspension part",
  why="The tests pin the bytes of one initial frame; what a redraw leaves behind depends on the terminal's state and on everything flushed before.",
  files=["screen.go", "render.go", "state.go", "term.go", "context.go"],
  mech=[("ScreenDiffer.Invalidate / WriteTo", "screen.go"), ("TermScreen Enter/Exit", "screen.go"), ("writeGrid full redraw", "render.go"), ("Term.RunWith / RunWithout", "term.go")],
  observe=["terminal contents after a flush", "bytes sent while leaving the context"],
  technique="stateful property-based testing against an independent reference terminal, including on a pseudo terminal",
  note="Random histories; trusts the reference terminal and the kernel's pty."),
 dict(id="C03",
  title="Write faults: partial writes resume exactly, failures recover by a redraw",
  statement="When the destination accepts only part of a frame and would block, the next flush continues with exactly the missing bytes, whatever was drawn in between, and once everything is written the terminal shows the latest screen. When a write fails outright, no later flush continues in the middle of the abandoned frame: a successful flush shows the complete current screen again; the virtual cursor likewise delivers its bytes exactly once or drops them whole, and forgets the real cursor state.",
  over=["fault_sequences", "histories", "inputs"],
  quant="every byte position at which a write may stop, any number of consecutive stalls and failures, any drawing, clearing, resizing and invalidation in between",
  why="No test ever fails a write.",
  files=["screen.go", "cursor.go", "buffer.go", "state.go"],
  mech=[("ScreenDiffer.WriteTo", "screen.go"), ("VirtualCursor.WriteTo", "cursor.go"), ("Buffer.WriteTo", "buffer.go")],
  observe=["bytes reaching a scripted faulty writer, interpreted by a terminal"],
  technique="property-based fault injection with a scripted writer, oracle: reference terminal and byte accounting",
  note="Faults are EWOULDBLOCK (bare and wrapped) and hard errors after an arbitrary prefix."),
 dict(id="C04",
  title="Output.Flush delivers every byte exactly once to a slow terminal",
  statement="Output.Flush delivers all bytes of its source in order and exactly once, however often the non-blocking file would block and however slowly it is drained, and reports an error if the reader goes away instead of losing bytes silently. The file's blocking mode is the same after the flush as before.",
  over=["schedules", "fault_sequences", "inputs"],
  quant="all payload sizes relative to the kernel buffer, amounts already queued, blocking and non-blocking files, late readers and readers that hang up",
  why="There is no test of Output at all; stalls need a full kernel buffer.",
  files=["output.go", "buffer.go", "screen.go"],
  mech=[("Output.Flush / flush", "output.go")],
  observe=["bytes read from the other end of the pipe", "fcntl flags", "returned error"],
  technique="property-based testing over real pipes with generated stall schedules; oracle: byte stream equality",
  note="Schedules are real ones: late readers started when the flush has found the pipe full."),
 dict(id="C05",
  title="Virtual screen emulation: ANSI output updates cells and cursor as on a terminal",
  statement="For every well-formed stream of text, line breaks, cursor movement, erasure, SGR and visibility sequences written to a virtual screen (by any write method), every cell, its rendition, the cursor position, rendition and visibility end up as on a terminal of that size; other sequences have no effect. Writing never affects anything outside the screen and never panics.",
  over=["inputs", "histories", "configurations"],
  quant="all streams of the documented sequences with and without parameters, 7 and 8 bit forms, all screen sizes, arbitrary chunking, interleaved with To, Clear and Resize",
  why="The tests write a few strings; the erase and clamp boundaries and parameter defaults are off the sampled path.",
  files=["state.go", "screen.go", "buffer.go", "ansi/decode.go", "ansi/sgr.go", "ansi/funcs.go"],
  mech=[("Screen.ProcessANSI", "state.go"), ("Cursor.processEscape", "state.go"), ("VirtualScreen.Write*", "screen.go")],
  observe=["VirtualScreen.Rune/Attr/Cursor after writing"],
  technique="model-based property testing against an independent emulation model",
  note="One listed finding: the emulation does not scroll (the model follows the code there). Single-width runes."),
 dict(id="C06",
  title="Chunk-insensitive processing of output",
  statement="The events a Processor receives from Buffer.Process, and the state virtual screens and cursors end up in, depend only on the bytes written and not on how they were cut into writes, on which write method was used, or on when processed bytes were discarded. Bytes of an incomplete rune or sequence are kept until completed and never delivered twice.",
  over=["inputs", "schedules"],
  quant="all byte streams, well-formed or not, and all ways to cut them, inside escape sequences and UTF-8 runes included",
  why="The tests write whole sequences.",
  files=["buffer.go", "ansi/decode.go", "cursor.go", "screen.go"],
  mech=[("Process / Buffer.Process", "buffer.go"), ("ansi.DecodeEscape", "ansi/decode.go")],
  observe=["events passed to ProcessANSI", "virtual screen and cursor state"],
  technique="metamorphic property testing: whole versus cut streams",
  note="Covers arbitrary garbage as well as well-formed streams."),
 dict(id="C07",
  title="Cursor tracking: typed moves and renditions reach exactly what was asked for",
  statement="After any history of typed cursor operations and of written text, line breaks, cursor movement, SGR and visibility sequences, writing a virtual cursor's bytes to a terminal in any prior state leaves the terminal's cursor position, rendition and visibility at what was last established, and the tracked state agrees with the terminal; what the history leaves unknown is never assumed. Applying a cursor or rendition to any writer has the same effect whether that writer is a plain one, a Buffer, or tracks a cursor of its own.",
  over=["histories", "inputs"],
  quant="all histories of To, Show, Hide, WriteSGR, Apply, text and raw ANSI output, Reset and WriteTo, from unknown initial terminal states",
  why="The tests follow a handful of short histories from a freshly reset terminal and compare bytes, not effect.",
  files=["cursor.go", "state.go", "ansi/sgr.go", "render.go", "buffer.go"],
  mech=[("VirtualCursor", "cursor.go"), ("Cursor / CursorState", "state.go"), ("SGRAttr.Diff/Merge", "ansi/sgr.go")],
  observe=["bytes of VirtualCursor.WriteTo interpreted by a terminal", "VirtualCursor.Cursor fields"],
  technique="stateful property-based testing against an independent reference terminal and a knowledge model",
  note="Positions stay away from the edges of a large terminal, where the model is exact."),
 dict(id="C08",
  title="Escape decoding is total and agrees with the documented grammar",
  statement="For every byte stream made of complete tokens, the documented DecodeEscape/rune loop yields exactly the escapes, arguments and runes the grammar prescribes: C1 controls in 7 and 8 bit form, ESC, CSI and control strings, with embedded controls and runes delivered first, deletes ignored and CAN canceling. On any bytes whatever decoding terminates, never panics, never consumes or rewrites bytes beyond the sequence; a proper prefix of a sequence decodes as incomplete and is completed by the remaining bytes.",
  over=["inputs"],
  quant="all token streams of the grammar and, for totality, all byte strings",
  why="The tests decode a table of sequences; truncation at every point and mixtures of malformed input are unbounded.",
  files=["ansi/decode.go", "ansi/escape.go", "buffer.go", "ansi/funcs.go", "ansi/sgr.go", "ansi/mouse.go"],
  mech=[("DecodeEscape", "ansi/decode.go"), ("decodeESC / decodeCSI / decodeString", "ansi/decode.go"), ("Process", "buffer.go")],
  observe=["(escape, argument, n) results of DecodeEscape", "events of Process"],
  technique="grammar-based generation against an independent tokenizer, plus garbage fuzzing for totality",
  note="Malformed CSI sequences are only held to totality."),
 dict(id="C09",
  title="Escape encoding: every encoder round trips through the decoder",
  statement="Every escape identifier with an argument it may carry encodes to the bytes the standard prescribes, appended without touching what came before, and decoding those bytes gives the identifier and argument back; re-encoding what was decoded gives the same bytes up to 7/8 bit form. Sequence builders encode their identifier, private prefixes, numbers and runes exactly once and in order, are not changed by building further sequences from them, and never need more than their announced size; they panic rather than take numbers for anything but a CSI sequence, or anything for a plain rune.",
  over=["inputs"],
  quant="all escape identifiers and arguments, all compositions of sequence builders, all destination buffers",
  why="The tests encode a few sequences; aliasing and round trips concern all of them.",
  files=["ansi/control.go", "ansi/escape.go", "ansi/funcs.go", "ansi/decode.go", "buffer.go"],
  mech=[("Escape.AppendTo/AppendWith", "ansi/escape.go"), ("Seq", "ansi/control.go"), ("Buffer.Write*", "buffer.go")],
  observe=["encoded bytes", "decoded escapes", "Seq.Size"],
  technique="property-based round-trip testing against an independent encoder",
  note="Identifiers outside the documented ranges are not covered."),
 dict(id="C10",
  title="Input decoding: every input byte decoded once and in order, however it arrives",
  statement="Whatever pieces the input arrives in and whichever mix of ReadAny and ReadMore reads it, Input decodes exactly the runes, escapes and arguments the whole stream holds, in order and once, waiting for the rest of a sequence or rune cut by a read and giving up waiting only at the end of the input. ReadAny never blocks, ReadMore blocks until there is input whatever was read before, and ReadMore reports the end of input as io.EOF only when it read nothing. Exit restores the file's flags as they were at Enter, input notifications reach the channel last given to Notify and no other.",
  over=["inputs", "schedules", "histories"],
  quant="all byte streams cut anywhere (except right after an ESC) and every interleaving of reads, Enter, Exit, Notify and arriving input, on pipes, ptys and growing files",
  why="There are no tests of Input; blocking, signals and cuts depend on timing.",
  files=["input.go", "ansi/decode.go"],
  mech=[("Input.ReadMore / ReadAny / Decode", "input.go"), ("Input.Notify / setFlag", "input.go")],
  observe=["results of ReadAny, ReadMore, DecodeEscape, DecodeRune", "fcntl flags", "notification channels"],
  technique="stateful property-based testing over real pipes and ptys; oracle: independent tokenizer of the whole stream",
  note="A lone ESC at the end of a read is documented to be decoded as the escape key, and is not asserted."),
 dict(id="C11",
  title="Rendition attributes: encode, decode, diff and merge agree with a terminal",
  statement="Every SGR attribute (flags, foreground and background of any color kind, clear) encodes to a sequence that a terminal interprets as that rendition, and decodes back to itself; any valid sequence of SGR parameters decodes to the rendition a terminal would have, and an invalid one is reported as an error with nothing made of the parameters after it. Merging the difference of two attributes into the first gives the second, and the difference sets only what differs; merging any change overrides exactly what the change sets.",
  over=["inputs"],
  quant="all attributes, pairs of attributes and parameter lists",
  why="The tests check a table of strings; colors alone are 2^24 values on either ground and the difference concerns pairs.",
  files=["ansi/sgr.go", "ansi/colors.go"],
  mech=[("SGRAttr.AppendTo / ControlString", "ansi/sgr.go"), ("DecodeSGR", "ansi/sgr.go"), ("SGRAttr.Diff / Merge", "ansi/sgr.go")],
  observe=["encoded bytes interpreted by a terminal", "decoded and merged attributes"],
  technique="property-based round-trip and algebraic testing against an independent rendition model",
  note="Parameters that switch single attributes off (22, 24, 39, 49 and the like) have no representation here and are not generated."),
 dict(id="C12",
  title="Colors: exact conversions, closest palette color, models that do not interfere",
  statement="Indexed colors have their standard RGB definition, converting between 24-bit colors, image colors and SGR colors keeps all components exactly, and foreground and background forms give the color back. A palette converts any color to a member of it that no other member is closer to, and keeps members unchanged. A combination of color models converts as its models do in order, and building further combinations never changes one already built.",
  over=["inputs", "histories"],
  quant="all 256 indexed colors (exhaustively), 24-bit and 16-bit components, all palettes and all trees of combined models",
  why="The tests check a few colors; a wrong nearest neighbor or table entry shows for few inputs.",
  files=["ansi/colors.go", "ansi/sgr.go"],
  mech=[("SGRColor conversions", "ansi/colors.go"), ("Palette.Convert / Index", "ansi/colors.go"), ("ColorModels", "ansi/colors.go")],
  observe=["converted colors"],
  technique="property-based testing against independent color definitions, exhaustive over the indexed colors",
  note="Closeness is squared distance in the color space the palette itself uses."),
 dict(id="C13",
  title="Argument decoding: numbers, points, moves, mouse reports and modes",
  statement="Decimal arguments decode to exactly their value and number of bytes, or to an error when there is none or it is out of range; positions, cardinal moves, xterm mouse reports and modes survive encoding and decoding, malformed ones are refused with an error, and other sequences are left alone. Mouse states tell button, press, release, motion, drag and modifiers as the protocol encodes them. A Mode sets its modes, pairs and sequences in the order added and resets them in the reverse order.",
  over=["inputs", "histories"],
  quant="all numbers around and beyond the 32-bit range, all points, mouse states and lists of modes",
  why="The tests use a table of arguments.",
  files=["ansi/decode.go", "ansi/funcs.go", "ansi/mouse.go", "ansi/modes.go", "mode.go"],
  mech=[("DecodeNumber / DecodePoint / DecodeCursorCardinal", "ansi/decode.go"), ("DecodeXtermExtendedMouse / MouseState", "ansi/mouse.go"), ("Mode.AddMode*", "mode.go")],
  observe=["decoded values and errors", "Mode.Set and Mode.Reset"],
  technique="property-based round-trip testing against independent parsing",
  note="Mouse numbers above 127 are not generated."),
 dict(id="C14",
  title="Points and rectangles: set semantics and exact conversions",
  statement="Rectangles behave as the sets of points they contain under In, Contains, Empty, Eq, Overlaps, Intersect, Inset, Canon, Add and Sub, and a union is the smallest rectangle holding both. Converting between 1-based screen coordinates and 0-based image coordinates is exact and invertible, and values outside of the coordinate space are refused.",
  over=["inputs"],
  quant="all pairs of rectangles, empty and ill-formed ones included, and all points",
  why="There are no tests of the geometry; boundaries and empty rectangles are many.",
  files=["ansi/geom.go"],
  mech=[("Point / Rectangle", "ansi/geom.go")],
  observe=["results of the operations"],
  technique="property-based testing against point sets",
  note="Coordinates are small in the set checks, up to 2^20 in the conversions."),
 dict(id="C15",
  title="Grids and sub-grids: windows onto one storage, confined to their bounds",
  statement="A sub-grid is the intersection of the requested rectangle with the grid it is taken from, shares that grid's cells at the same screen points, and nothing done through it (writing, clearing, resizing, comparing) reads or changes a cell outside of it; Full gives back the whole grid. Every point within bounds has one storage offset of its own and points outside have none; resizing a full grid gives the requested size with storage to match, resizing a sub-grid moves only its bounds within the full grid, and both report truly whether anything changed. Eq holds exactly for grids of the same size with equal cells, the given rune standing for unset ones.",
  over=["inputs", "histories"],
  quant="all histories of taking sub-grids, writing, clearing, resizing and comparing, over grids of any size including empty ones",
  why="The tests take few sub-grids; aliasing and bounds faults need particular nestings, sizes and spare capacities.",
  files=["grid.go"],
  mech=[("Grid.SubRect / Full / CellOffset", "grid.go"), ("Grid.Resize / Clear / Eq", "grid.go")],
  observe=["all storage of the grids", "bounds and offsets", "results of Resize and Eq"],
  technique="stateful model-based property testing; oracle: a plain array of cells",
  note="Contents after growing a full grid are not asserted (undocumented)."),
 dict(id="C16",
  title="Drawing grids and styles: each cell as its styles say, and nothing else",
  statement="DrawGrid copies the overlap of source and destination cell by cell from their top left corners, passing each through its styles with the destination point and the cell there before, and changes nothing outside the overlap nor the source; with no style it is an exact copy. A combination of styles applies its members in order whatever else is combined from it, and the fill, default, zero-rune, attribute and transparency styles map cells as documented.",
  over=["inputs"],
  quant="all pairs of (sub-)grids and all combinations of styles",
  why="The tests draw a few grids of matching size; overruns show only where sizes, strides or sub-grid bounds differ.",
  files=["draw.go", "style.go", "grid.go"],
  mech=[("DrawGrid", "draw.go"), ("Styles and the style types", "style.go")],
  observe=["all storage of source and destination", "calls of the styles"],
  technique="model-based property testing with a cell-by-cell reference drawing",
  note="Source and destination that overlap in one storage are not generated (undocumented)."),
 dict(id="C17",
  title="Bitmaps: bits, braille runes, parsing, loading and drawing",
  statement="A bitmap holds exactly the bits set, sub-bitmaps share them within their bounds, bits outside read as unset and setting them does nothing; Rune gives the braille pattern of the 2x4 bits at a point, absent ones unset. Loading data of any length and stride completes the last row without touching the caller's data, and parsing text gives exactly the bits drawn or an error when it is malformed. DrawBitmap puts each rune through its styles into the cell it belongs to and changes nothing else.",
  over=["inputs", "histories"],
  quant="all bitmaps, sub-bitmaps, points, strides, texts and style combinations; all 256 patterns at all edge cuts exhaustively",
  why="The tests draw one or two bitmaps; odd sizes, edges and offsets are many.",
  files=["bitmap.go", "draw.go"],
  mech=[("Bitmap.Rune / Get / Set / SubRect", "bitmap.go"), ("Bitmap.Load / ParseBitmap", "bitmap.go"), ("DrawBitmap", "draw.go")],
  observe=["bits and runes", "parsed data and errors", "destination storage"],
  technique="stateful model-based property testing; oracle: a set of points and the braille dot numbering",
  note="The attribute drawn without any style is the library's (zero)."),
 dict(id="C18",
  title="WriteGrid and WriteBitmap: the terminal shows what was written",
  statement="After WriteGrid, whether full or differential and whatever frames were written before, a terminal shows every cell of the grid as its styles make it, without scrolling, and the returned cursor state is the terminal's own; unchanged cells are not printed again by a differential write. WriteBitmap shows the styled runes line by line. The reported byte count and error are those of the writer, also when it fails after some bytes, and what is written is never changed.",
  over=["inputs", "histories"],
  quant="all sequences of grids, style compositions, cursor states and kinds of writers",
  why="The tests compare a few byte strings; whether bytes show the grid depends on all of the terminal's state.",
  files=["render.go", "screen.go", "cursor.go"],
  mech=[("WriteGrid / writeGridDiff", "render.go"), ("WriteBitmap", "render.go")],
  observe=["a model terminal fed the bytes", "returned cursor, count and error"],
  technique="model-based property testing against an independent terminal emulator",
  note="Styles that fill with an attribute but no rune are not generated."),
 dict(id="C19",
  title="Terminal contexts: entered, exited and closed in order, whatever fails",
  statement="RunWith enters input, output, attributes, mode and then the added contexts in order, runs the function only if all entered, exits all in reverse order however the function ends (return, error or panic), and closes at the end of the outermost RunWith only; RunWithout exits them, runs, and enters them again unless there was an error. A combination of contexts calls its members in order (Exit and Close in reverse and all of them), returns the first error, leaves out nil ones, and is not affected by combinations built from it later.",
  over=["histories", "fault_sequences"],
  quant="all nestings of RunWith and RunWithout, trees of combined contexts, and points of failure or panic",
  why="There are no tests of contexts; failure and nesting combinations are too many to sample by hand.",
  files=["context.go", "term.go"],
  mech=[("Contexts", "context.go"), ("Term.RunWith / RunWithout", "term.go")],
  observe=["order of calls", "returned errors and panics"],
  technique="model-based property testing with fault injection",
  note="Exit of a context that was never entered is allowed, as the library does."),
 dict(id="C20",
  title="The terminal is always left as it was found",
  statement="While a Term is active the terminal has the asked for raw and echo attributes and modes, and it has its original attributes, descriptor flags and modes whenever the Term is not: after RunWith returns by value, error or panic, during RunWithout, while suspended, and after a context failed to enter. Attributes changed by others meanwhile are kept as the new original, a resumed Term goes on as it was, and output written is flushed in order with the mode sequences around it.",
  over=["histories", "fault_sequences"],
  quant="all histories of settings, nestings, suspensions, errors and panics, from all original attributes",
  why="There are no tests of it; it needs a tty, job control and failures at particular points.",
  files=["term.go", "attr.go", "attr_linux.go", "mode.go", "output.go", "input.go"],
  mech=[("Term.RunWith / RunWithout / Suspend", "term.go"), ("Attr.Enter / Exit", "attr.go"), ("Mode.Enter / Exit", "mode.go")],
  observe=["tcgetattr on the other side of a pty", "fcntl flags", "bytes arriving at the terminal", "wait status of child processes"],
  technique="stateful model-based property testing on real ptys with fault injection and child processes",
  note="Whether normal mode echoes before SetEcho is called is not asserted (code and comment disagree)."),
 dict(id="C21",
  title="Input recordings: every read is recorded, and replayed as it was",
  statement="A recording of an Input holds, in order, every read with its time, its error and exactly its bytes, and every message recorded in between, and reading it back with ReadInputReplay gives exactly those frames, however the input is cut, mixed from ReadAny and ReadMore, or the recording switched meanwhile. Recording changes nothing of what is read and decoded, a failing recording included. Any recording written as documented is read back as it says, whatever wrote it, and a malformed time is reported as an error.",
  over=["inputs", "histories", "fault_sequences"],
  quant="all byte streams, cuts of them, histories of reads, messages and recording switches, and points where recording fails",
  why="There are no tests of recording; input holding recording-like bytes, cuts and errors only show in some streams.",
  files=["input.go"],
  mech=[("Input.SetRecording / recordFrame", "input.go"), ("ReadInputReplay", "input.go")],
  observe=["bytes of the recording", "frames of the replay", "results of reads"],
  technique="round-trip and model-based property testing over real pipes with fault injection",
  note="Input that itself holds a complete APC string is, by the format, a message when replayed, and is not generated within input."),
 dict(id="C22",
  title="The event queue: every event kept as it came, and counted once",
  statement="Decoding input (from bytes or from an Input) queues each rune, escape and mouse event once, in order, with its identifier, argument, and mouse state and position, unchanged by whatever is read later, until the queue is cleared. Each query (terminal runes, rune counts, presses, scrolls, cursor movement, last mouse) answers for exactly the matching events still in the queue and strikes exactly those it documents to strike, leaving all others as they were.",
  over=["inputs", "histories"],
  quant="all input streams, cuts into decodings, and sequences of queries",
  why="There are no tests of the queue; aliasing and double counting show only in sequences of reads and queries.",
  files=["x/platform/event.go", "ansi/decode.go", "ansi/mouse.go"],
  mech=[("Events.DecodeInput / DecodeBytes / add", "x/platform/event.go"), ("Events queries", "x/platform/event.go")],
  observe=["all events of the queue after every step", "answers of queries"],
  technique="stateful model-based property testing; oracle: independent tokenizer and a list of events",
  note="Scroll and press classification of undocumented button codes is not generated."),
 dict(id="C23",
  title="The edit line: the text typed, shown around its cursor within its box",
  statement="Whatever keys arrive in whichever frames, an EditLine holds exactly the text that inserting, deleting before the cursor and moving make of it, ends at the first enter (done) or escape (canceled) and then leaves all input alone, and strikes exactly the events it used. While active it shows, in the first row of its box, the text around the cursor with the user cursor on it, filling the box as far as the text goes, and changes nothing of the screen outside of its box, wherever and however narrow the box is.",
  over=["inputs", "histories"],
  quant="all histories of frames of keys, boxes and resets",
  why="One test edits a few ASCII words in one box; views, multi-byte runes and positions interact.",
  files=["x/platform/editline.go"],
  mech=[("EditLine.Update", "x/platform/editline.go")],
  observe=["Buf, Cur, View and State", "all cells of the screen and its user cursor", "the event queue"],
  technique="stateful model-based property testing; oracle: a list of runes with a cursor",
  note="Every rune counts as one column, as the library does."),
 dict(id="C24",
  title="Logs are kept, filed and shown: every line, once and in order",
  statement="A LogSink keeps exactly the bytes that were written and not yet read, with the ends of all their lines, an unterminated last one included, however lines are cut over writes and reads. While a log file is set everything written also ends up in that file exactly once and in order: at once, or deferred until Notify, Stop or a change of file, each of which loses nothing; any number of goroutines may log while files are changed and the sink is started, stopped, notified and looked at, and none of these ever hangs, on a slow or failing file neither; a failing file is reported by Notify or Stop; the platform's Logs get what the standard logger logs. A LogView shows, on a screen of any size, the last lines or the ones scrolled to, under a title when expanded, each cut to the width.",
  over=["histories", "schedules", "fault_sequences"],
  quant="all histories of writes, reads, files, starts, stops and notifications, from all goroutines, and all screens",
  why="There are no tests of it; its faults need a busy worker, a particular moment, or lines in pieces.",
  files=["x/platform/log.go", "x/platform/bg.go", "x/platform/hud.go"],
  mech=[("LogSink.Write / Read / Contents", "x/platform/log.go"), ("LogSink.Start / Stop / SetFile", "x/platform/log.go"), ("bgWorkerCore", "x/platform/bg.go"), ("LogView.Update", "x/platform/hud.go")],
  observe=["contents and line ends", "log file contents", "errors returned, calls that never return", "data races", "rows of the screen"],
  technique="stateful model-based property testing, with slow and failing files and concurrent writers under the race detector",
  note="A call is taken to hang after 20 s. Control bytes within log lines are not generated for the view."),
 dict(id="C25",
  title="The platform's run loop: all input to the client, all drawing to the terminal",
  statement="While a Platform runs, its client gets every event typed on the terminal exactly once and in order, each in one frame, however the input arrives in pieces, but for the platform's own refresh and recording keys; each frame has a time that never goes back (and, while paused, stands still), the time of the last frame, and a screen of the terminal's size. A size change signal or the refresh key makes a frame at the new size of the terminal that is a redraw, a frame is a redraw only if it is the first, changed size, or was asked for, and the terminal then shows what the client drew, foreign content gone. Run returns the client's error, the stop signal that came, or io.EOF when all of an input that ends was delivered, passes on a panic, and may be called again, as may RunWith; whenever RunWith is over, the terminal's attributes, descriptor flags, modes, cursor and rendition are as they were.",
  over=["histories", "schedules", "inputs"],
  quant="all histories of input, cuts of it, size changes, refreshes, pauses, drawings, errors, panics, stop signals and further runs",
  why="There are no tests of the run loop; it needs a terminal, signals and particular timings.",
  files=["x/platform/platform.go", "x/platform/event.go", "x/platform/tick.go", "x/platform/hud.go", "signal.go", "input.go", "term.go"],
  mech=[("Platform.Run", "x/platform/platform.go"), ("Context.Update", "x/platform/platform.go"), ("Platform.RunWith", "x/platform/platform.go"), ("InputSignal", "input.go")],
  observe=["events, times, sizes and redraw flags a client sees in each frame", "bytes arriving at the terminal", "results of Run and RunWith", "tcgetattr and fcntl flags"],
  technique="stateful model-based property testing of a live platform on a pty; oracles: independent tokenizer and reference terminal",
  note="Runs at 1000 frames/s, with the HUD hidden. Input is not cut right after an escape byte, which the library does not wait with."),
 dict(id="C26",
  title="Recording and replay: a fresh client gets just what the recorded one got",
  statement="After a session is recorded between two presses of the recording key, running a fresh client replays it: the client begins with the state the recorded one had, gets exactly the events that were recorded, in order and at the screen size each then had, but none of the platform's own keys, at recorded times that never go back, and ends up in the same state; then Run says that the replay is done. Every further run replays the very same frames. Ctrl-C stops a replay wherever it is: the client goes on live, on a redrawn screen of the terminal's size, with all further input, and may be recorded again; Space pauses a replay and resumes it where it was, '.' steps it a frame, and Run says so when a recording is damaged.",
  over=["histories", "inputs", "schedules"],
  quant="all recorded histories of input, cuts of it, size changes and refreshes, and points at which a replay is stopped",
  why="There are no tests of replaying; it needs a terminal, and input cut at particular points.",
  files=["x/platform/replay.go", "x/platform/state.go", "x/platform/platform.go", "input.go"],
  mech=[("Platform.toggleRecRep / setRecording", "x/platform/replay.go"), ("replay.update", "x/platform/replay.go"), ("Platform.readState / writeState", "x/platform/state.go"), ("ReadInputReplay", "input.go")],
  observe=["client state restored", "events, times, sizes and redraw flags of replayed frames", "results of Run", "bytes arriving at the terminal after a replay is stopped"],
  technique="record/replay round-trip property testing of a live platform on a pty",
  note="The recording key is pressed in a frame of its own; a pause before the first frame is not asserted. Input holding a complete APC string is a message by the format, and not generated."),
 dict(id="C27",
  title="The HUD overlay: stays in its place, and does what its controls say",
  statement="On a screen of any size, whatever is shown and whatever input comes, the HUD never fails: the client gets all events but the toggle key, its error is passed on, and everything outside of the status line, the open panel at the right and the log lines, the user cursor included, is as the client drew it; all of it while the HUD is hidden. Pressing a control that is shown does what it says and nothing else, pressing elsewhere does nothing, and what is shown is the state. Profiles are started, stopped, added and filed as the user of the panel says.",
  over=["histories", "inputs", "configurations"],
  quant="all histories of frames, screen sizes, panels, log lines, presses, keys and client drawings",
  why="There are no tests of the HUD; its faults need small screens, or presses in sequence.",
  files=["x/platform/hud.go", "x/platform/config.go", "x/platform/platform.go"],
  mech=[("HUD.Update", "x/platform/hud.go"), ("HUD.draw* / calcKVBox / rightSegment", "x/platform/hud.go"), ("profilers", "x/platform/config.go")],
  observe=["all cells of the screen and its user cursor", "events the client sees", "HUD, telemetry and pause state", "profile files", "terminal of a live platform on a pty"],
  technique="stateful model-based property testing of the overlay, directly and in a live platform on a pty; metamorphic oracle: the client's own drawing",
  note="Controls are found by their labels on the screen. Control keys while editing are those of C23. At most one press per frame."),
 dict(id="C28",
  title="Telemetry and configuration: what is told, logged and filed is so",
  statement="Once enabled, by option, flag or call, frame timing is told per round of a quarter second of frames (at least one), exactly as the frames' times give it, starting anew when it is disabled and enabled; FPS() is that rate, or else the estimate over the last second of frames. Each output stall, and each timing round, is told and logged once, in whole lines of JSON in the order of their time; resource usage, as the system counts it, about once per second. The first configuration naming a log, profile, trace or telemetry file wins, each file named is made and holds all of the last run, no other is made; New (thus Run) fails if one cannot be created, and Run if one cannot be written, but a log that is slow to take holds up no frame; frames never come faster than configured, nor, on an idle machine, much slower.",
  over=["histories", "configurations", "schedules"],
  quant="all frame rates, switching points of timing, pauses of the terminal, and sets of configurations and flags",
  why="There are no tests of telemetry or configuration; the faults need low rates, slow terminals, or a worker at work just then.",
  files=["x/platform/diag.go", "x/platform/config.go", "x/platform/options.go", "x/platform/bg.go", "output.go"],
  mech=[("Telemetry.update / TimingData.update / StallsData.update", "x/platform/diag.go"), ("telemetryCollector", "x/platform/diag.go"), ("Config.Merge / AddFlags / setup / Enter / Exit", "x/platform/config.go"), ("Output.Stalls", "output.go")],
  observe=["Timing, Stalls and FPSEstimate values seen in each frame", "lines of the telemetry log", "log, profile and trace files", "results of New and RunWith"],
  technique="stateful model-based property testing of live platforms on ptys, under the race detector; reference model of the statistics; injected stalls",
  note="How the first round counts its first frame is not asserted; a timing round may be missing from the log where the worker was held up. Stalls are told while timing is enabled."),
 dict(id="C29",
  title="Terminfo: database entries are read as written, and builtins back them up",
  statement="Reading a compiled entry gives its primary name and, for each key and function, exactly the string that the entry defines, or the empty string where it is absent, cancelled or beyond those stored, whatever the sizes of its sections and however the file is read; a truncated or inconsistent entry gives an error or just strings that are fully there, never a panic or other bytes. Load takes the first readable entry by TERMINFO, or else ~/.terminfo, TERMINFO_DIRS and the default directory, or else a builtin, which are as in ncurses, or else is an error, as it is for an empty name; it returns the same value ever after. The key and function maps hold every string by its name.",
  over=["inputs", "configurations"],
  quant="all compiled entries, corruptions of them, search paths and terminal names",
  why="Tests only look at builtins, which are compiled in.",
  files=["terminfo/terminfo.go", "terminfo/read.go", "terminfo/builtin.go", "terminfo/builtin_xterm_terminfo.go"],
  mech=[("Terminfo.ReadFrom", "terminfo/read.go"), ("Load / SearchPath", "terminfo/terminfo.go"), ("GetBuiltin", "terminfo/builtin.go")],
  observe=["values and errors of Terminfo.ReadFrom, Load, SearchPath, GetBuiltin, KeyMap and FuncMap"],
  technique="property-based testing against a reference encoder of term(5), tic(1) as a differential, and mutation of entries",
  note="The legacy storage format only; ncurses' own entries are a snapshot, with four strings that differ between its versions. TestTic needs tic, and passes vacuously without."),
 dict(id="C30",
  title="Filters: to24bit changes only colors, decode only names sequences",
  statement="cmd/to24bit passes all of its input on, in order, but for SGR sequences whose foreground or background color is indexed: those become ones that set the same attributes and, in 24 bits, the same colors. cmd/decode, when not interactive, writes text as it is and the name and arguments of each control and escape sequence, or nothing for these when stripping. Both do so for input of any length that arrives in any pieces, even ones that cut a rune or sequence, pass on text from within and after a broken sequence, and succeed at its end.",
  over=["inputs", "schedules"],
  quant="all streams of text, controls, strings and sequences, whole or broken, and all cuts of them into reads",
  why="Neither command has tests; and no sample covers where the reads may cut the input.",
  files=["cmd/to24bit/main.go", "cmd/decode/main.go", "ansi/decode.go", "ansi/sgr.go"],
  mech=[("processMore / process", "cmd/to24bit/main.go"), ("runBatch / processBatch", "cmd/decode/main.go"), ("DecodeEscape", "ansi/decode.go"), ("SGRColor.To24Bit", "ansi/sgr.go")],
  observe=["standard output and exit status of cmd/to24bit and cmd/decode, standard input being a file or a pipe"],
  technique="property-based testing of the built commands against a reference tokenizer and SGR interpreter, with generated cuts of the input",
  note="SGR flags that the library has no name for (blink, 22 to 28, 39, 49) are only required to set no other color. C1 codes come out in 7 or 8 bits; an invalid byte from within a broken sequence may become U+FFFD."),
 dict(id="C31",
  title="Signals, ticks, exit codes, and opening the terminal",
  statement="A Signal's channel holds the first signal, process or synthetic, that came since it was last taken, without ever blocking the sender: from its first Open, Enter or Send until Close, after which nothing comes; AsErr takes it, or gives nil if there is none. A Ticker's Wait gives successive tick times, none early, while entered, else zero, also once exited meanwhile. MustRun returns on nil, exits with the error's own non-zero ExitCode (128 plus the number for a signal) or else with 1 after logging it; OpenTerm uses standard input and output where they are terminals and /dev/tty for the others, or fails and leaves nothing open.",
  over=["histories", "configurations", "fault_sequences"],
  quant="all histories of signals, sends, context changes and waits; all errors; all kinds of standard files, with or without a controlling terminal or enough descriptors",
  why="There is only an example of signals, which does not run; nothing exits or opens a terminal in tests.",
  files=["signal.go", "term.go", "x/platform/tick.go", "x/platform/platform.go"],
  mech=[("Signal", "signal.go"), ("SignalError.ExitCode", "signal.go"), ("MustRun / OpenTerm", "term.go"), ("Ticker", "x/platform/tick.go")],
  observe=["Signal.C, AsErr; Ticker.Wait; exit status, standard error and terminal attributes of processes that end by MustRun; files and descriptors of OpenTerm"],
  technique="stateful property-based testing against a model in process, and generated configurations of child processes on pseudo terminals",
  note="Signals are delivered to the test process itself and awaited; two ticks are told apart to 1 ms. What is logged under platform.MustRun goes to platform.Logs, which C24 covers."),
dict(id="C32",
  title="Programs: the demos run on any terminal, end as told, and show what they should",
  statement="The programs demo, lolwut -i and interact keep running on a terminal of any size, whatever is typed, clicked, resized or suspended, and end on Ctrl-C or a termination signal with that exit status, leaving the terminal's attributes, modes, cursor and rendition as they were, as they also do while suspended by Ctrl-Z; decode on a terminal does so too, and names each event of its input once and in order. Each shows what it is for on all of the terminal and follows every resize: the test pattern, or a recording replayed over and over until Ctrl-C, the drawing in the tiling and size asked for, the output of the command run with the values last given. palette shows every color in the model asked for, with the sequences used.",
  over=["histories", "configurations", "inputs"],
  quant="all histories of keys, mouse events, HUD use, suspensions, resizes and signals; all terminal sizes and initial attributes; all arguments",
  why="No program is ever run by a test.",
  files=["cmd/demo/main.go", "cmd/lolwut/interact.go", "cmd/lolwut/main.go", "cmd/interact/main.go", "cmd/decode/main.go", "cmd/palette/main.go", "term.go", "x/platform/platform.go"],
  mech=[("demo.Update", "cmd/demo/main.go"), ("schotterDemoUI.Update", "cmd/lolwut/interact.go"), ("schotter drawing", "cmd/lolwut/main.go"), ("inspect.Update / runCmd", "cmd/interact/main.go"), ("runInteractive / handle", "cmd/decode/main.go")],
  observe=["output of the built programs on a pty, as a reference terminal shows it; exit status, terminal attributes, standard error"],
  technique="stateful property-based testing: generated histories on pseudo terminals, against a reference terminal and models of what is shown",
  note="A process of its own session is not stopped by SIGTSTP, but goes through the same suspension. Squares of lolwut are random below the first row, and not compared. decode's input is a second pty, so that echo is not mixed into its output."),
dict(id="C33",
  title="Test helpers: lines of a grid say what its cells are, and parse back",
  statement="GridLines of a grid or sub-grid has a line per row which, shown on a terminal one after the other, shows the row's runes, a given rune for unset ones, with their attributes; ParseGridLines gives a grid with the cells that lines show, renditions going on from line to line, and panics for lines with controls or other sequences in them or of uneven lengths. GridRowData, RunesToLines and AttrsToCtls give the same runes and attributes by row. None of them changes the grid.",
  over=["inputs"],
  quant="all grids and sub-grids, all lines of runes and SGR sequences in any form",
  why="Other tests rely on these helpers for what they compare; nothing checks the helpers.",
  files=["test/grid.go"],
  mech=[("GridLines / ParseGridLines", "test/grid.go"), ("GridRowData / RunesToLines / AttrsToCtls", "test/grid.go")],
  observe=["lines, rows and grids returned; the grid given"],
  technique="property-based testing: round trips, and differential testing against a reference terminal",
  note="Known findings, not repaired as test/ is not to be changed: GridRowData of sub-grids, RunesToLines writing into its rows, ParseGridLines of lines without cells. Around these, rows of sub-grids are taken from a copy, and lines have cells."),
]
NOT_CLAIMED = []
