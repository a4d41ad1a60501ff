NT="The existing tests only exercise Line building, wrapping and a few doc examples in pipe mode; none runs the terminal worker. "

p('P01','The screen shows the output, then status, prompt and input, cursor in place',
 'In terminal mode, whenever Liso is idle, the terminal shows every printed line exactly once and in the order printed, each starting on its own row, directly followed by the status line if one is set, directly followed by the active notice or else by the prompt with the current input right after it, and nothing else below. The visible text of each of these is complete (broken only at explicit newlines and at the right margin), and the cursor stands on the cell of the input position, visible exactly when input is allowed and no notice is shown.',
 ['programs','inputs','histories'],'every sequence (up to a depth) of println/wrapln/echoln/status/prompt/notice calls and keystrokes, batched or spaced out, on several terminal widths and heights, including wide, zero-width and control characters, embedded newlines and lines as wide as the terminal',
 NT+'The screen is a function of the whole history of calls, so no handful of samples settles it.',
 [W,C,'src/term.rs'],[('rollin/rollout','src/worker.rs TtyState'),('output_line','src/worker.rs'),('output_line_changes','src/worker.rs')],
 ['bytes written to stdout, interpreted by a terminal emulator'],[('remembered_output','what the worker believes is on screen','src/worker.rs TtyState'),('rollout_needed','whether the edit area is stale','src/worker.rs TtyState')],HK)

p('P02','What is on screen depends only on the current state, not on how it came about',
 'In terminal mode the displayed status, prompt, notice and input area, cell by cell including colours and styles, together with the cursor, is the same after any sequence of changes as when the same status, prompt, notice and input are drawn from scratch on an empty screen. In particular no stale character, stale fill or stale style survives an incremental update.',
 ['histories','programs'],'every ordered pair and triple of edit-area states from a catalogue built to collide (prefixes, wider/narrower characters, newline moves, exact-width lines, styled fills, growing and shrinking rows), on several widths',
 NT+'Redisplay correctness is a property of pairs of states; the tests compare no screens at all.',
 [W,LN],[('output_line_changes','src/worker.rs'),('reconcile_cursors','src/worker.rs'),('endfills_same_as','src/line.rs')],
 ['terminal emulator cells after each change vs. a fresh redraw'],[('remembered_output','last drawn line and cursor','src/worker.rs')],HK)

p('P03','Lines printed from many threads are never torn, lost, duplicated or reordered',
 'When any number of threads print through clones of the output handle, every line printed before shutdown begins appears exactly once, whole and uninterrupted by other output, the lines of each single thread appear in the order that thread printed them, and the prompt and input survive intact below them. This holds in terminal mode and in pipe mode, under every thread schedule and whatever the user types meanwhile.',
 ['schedules'],'all interleavings up to a deviation bound of 2-3 printing threads, the worker, the input threads and the reading thread',
 NT+'No test starts a second thread; orderings cannot be sampled into certainty.',
 [L,W],[('Output::send','src/lib.rs'),('tty_worker queue drain','src/worker.rs'),('pipe_worker','src/worker.rs')],
 ['terminal emulator rows / pipe bytes'],[],HK)

p('P04','Line editing follows the documented key bindings from every state',
 'For every sequence of keystrokes, the input line, its cursor position and the kill buffer evolve exactly as the documented bindings say (insertion, character movement and deletion treating a character and its zero-width followers as one unit, home/end, delete word, kill to start/end, yank, discard, finish, enter), and every key that is documented to report something to the program reports exactly that, as a response naming the control code behind it. Keys typed while input is not allowed have no effect, and both input back ends (raw bytes and terminal events) agree.',
 ['inputs','histories'],'all keystroke sequences up to a depth over an alphabet with plain, wide, combining and space characters and all bindings, from empty and pre-filled lines, through both input back ends',
 'No test feeds a key to the editor.',
 [W,C,'README.md'],[('handle_input/handle_event','src/worker.rs'),('handle_* editing functions','src/worker.rs')],
 ['responses returned by the read functions','terminal emulator (text and cursor)'],[('input','the line being edited','src/worker.rs TtyState'),('input_cursor','byte offset of the cursor','src/worker.rs TtyState'),('clipboard','kill buffer','src/worker.rs TtyState')],HK)

p('P05','Input bytes are decoded the same way however they arrive, and never break Liso',
 'In terminal mode, for every byte string, the keys delivered are the same however the bytes are split across reads (an escape followed by the rest of its sequence within the escape delay counts as one sequence), valid UTF-8 is delivered as exactly those characters, and escape sequences that are not supported insert nothing. No byte string, valid or malformed, ever kills or hangs Liso or stops later keys from being delivered, and a lone Escape is reported once the escape delay has passed.',
 ['inputs','schedules'],'all byte strings up to a length over a representative byte alphabet (ASCII, ESC, CSI bytes, every UTF-8 lead/continuation class, surrogates and out-of-range encodings, 0xFF), under every split into reads',
 'The decoder is not tested at all; malformed input is an infinite space.',
 [C,V],[('input_thread','src/term/cross.rs'),('parse_csi_sequence','src/term/cross.rs')],
 ['responses and input line after the bytes'],[],HK)

p('P06','Every response is delivered exactly once, in order, by every way of reading',
 'Responses (input lines, control keys, custom values) are received exactly once each and in the order in which they were produced, custom values of one sender in the order sent, whichever mixture of read_async, read_blocking, read_timeout, read_deadline and try_read is used. try_read never waits, read_timeout and read_deadline return nothing only when the time has passed with no response available and do return by then, and a response arriving wakes a waiting reader.',
 ['schedules','programs'],'all interleavings up to a deviation bound of senders, typist, worker and a reader using every sequence of read methods; timer races included',
 'The tests call none of the read functions with a live worker and timing decides the outcome.',
 [L,W],[('read_* functions','src/lib.rs InputOutput'),('response channel','src/worker.rs tx')],
 ['values returned by the read functions and the (virtual) time they return at'],[],HK)

p('P07','Shutdown always completes and gives the terminal, stdin and threads back',
 'Dropping the InputOutput, blocking_die and die each finish under every schedule and whatever is queued, typed, displayed or pending at the time, in terminal mode and pipe mode. Afterwards the prompt, status and input are erased from the screen while printed output remains, raw mode is off, the cursor is visible, line wrapping is on, colours and styles are reset, standard input is the original file again with no Liso thread reading from it or still running, the signal and panic handlers are as before, and a new InputOutput can be created and works.',
 ['schedules','fault_sequences'],'all interleavings up to a deviation bound of shutdown (three ways) with typing, output, notices pending, partial escape sequences and second instances',
 'Doc tests drop one idle pipe-mode instance (and two of them hang or fail at baseline); the races with the stdin thread are never explored.',
 [L,W,C,V,U],[('actually_blocking_die','src/lib.rs'),('InterruptibleStdinThread::interrupt','src/unix_util.rs'),('suspend/cleanup','src/term/cross.rs')],
 ['terminal emulator modes','simulated fd table','thread list','signal dispositions'],[],HK)

p('P08','Output requested before shutdown is delivered; handles of a dead instance panic',
 'Every line a thread printed before it (or a thread it synchronised with) started shutting Liso down is on the terminal or pipe once shutdown has finished, no matter how much was queued. After shutdown has finished every method of a surviving output handle panics instead of silently discarding its output, and never writes to the terminal.',
 ['schedules','programs'],'every batch of queued calls followed by each way of shutting down, under all interleavings up to a deviation bound; every output method on a dead handle',
 'Needs the worker to be at a particular point of its queue when shutdown arrives.',
 [L,W],[('Request::Die handling','src/worker.rs tty_worker, pipe_worker'),('Output::send','src/lib.rs')],
 ['bytes on stdout','panics of the calling thread'],[],HK)

p('P09','At most one instance at a time; the global output reaches exactly the live one',
 'While one InputOutput is alive, creating another panics and leaves the first fully working; once it has been shut down (by drop, die or blocking_die) creating a new one succeeds. output() and the global println!/wrapln! macros reach the one live instance and panic when there is none, and under no schedule do two workers own the terminal at once.',
 ['schedules','histories','configurations'],'all sequences of create/clone/drop/die/global output up to a depth on one and two threads, all interleavings up to a deviation bound, with and without the global feature',
 'Tests create instances one after another on one thread only.',
 [L],[('LISO_OUTPUT_TX / LISO_IS_ACTIVE','src/lib.rs')],
 ['panics, terminal output, live threads'],[('LISO_OUTPUT_TX','global handle and single-instance guard','src/lib.rs')],HK)

p('P10','A dead terminal is reported as Dead, forever and never silently',
 'If the worker stops because the terminal or standard output fails, every read function first returns the responses already produced and then Dead on every later call, without blocking, until the documented repetition limit makes it panic (the ninth Dead). Shutting down after such a death still completes, and Dead is never returned while Liso is alive.',
 ['fault_sequences','schedules'],'a write failure at every output operation of several sessions, for every read method, followed by every way of shutting down',
 'No test can make the terminal fail.',
 [L,W],[('report_death','src/lib.rs'),('LifeOrDeath error paths','src/worker.rs')],
 ['values returned by read functions'],[('death_count','number of Dead reports','src/lib.rs InputOutput')],HK)

p('P11','Notices show until timeout, key press or next notice, and lose nothing',
 'A notice is shown in place of the prompt and input until the first of: its duration has passed since it was displayed, the user presses any key while input is allowed, or another notice is displayed (whose own duration then counts). When it goes away the prompt and the unchanged input come back on their own, the dismissing key still has its normal effect, and any number of notices, of any durations and in any order, can be shown during one session.',
 ['histories','schedules','inputs'],'all sequences up to a depth of notices with short, long, zero and maximal durations, waits around the deadlines, every key, and prints; plus timer races',
 'Nothing tests notices; their expiry needs specific timing and orders.',
 [W],[('show_notice','src/worker.rs'),('heartbeat thread','src/worker.rs tty_worker'),('dismiss_notice','src/worker.rs')],
 ['terminal emulator at chosen virtual times'],[('notice','active notice and deadline','src/worker.rs TtyState')],HK)

p('P12','In pipe mode lines go in and text goes out, nothing else',
 'When standard input or output is not a terminal, or TERM is dumb or pipe, each input line (terminated by LF or CRLF, the last one possibly unterminated) is delivered as exactly one Input with its text and nothing is delivered for the end of input; each println and wrapln writes exactly its text and a newline; echoln, status, prompt, notice and bell write nothing; no escape sequence is written and the terminal mode is never changed. Custom values are delivered and shutdown works both while the input is still open and after it has ended.',
 ['inputs','programs','configurations'],'all short input byte strings over a representative alphabet with every split into reads, all call sequences up to a depth, all combinations of tty-ness and TERM',
 'Doc tests touch pipe mode without checking what is written or read.',
 [W],[('pipe_worker','src/worker.rs'),('worker (mode choice)','src/worker.rs'),('is_pipe_term','src/worker.rs')],
 ['bytes on stdout, responses'],[],HK)

p('P13','Building a Line keeps exactly the text and styling that was asked for',
 'For every sequence of Line-building calls (or the equivalent liso!/liso_add! macro forms), the line contains exactly the appended text in order, each character with the style and colours in force when it was added, and the get_style/get_colors/len/is_empty/as_str/chars accessors agree with it. Every control character other than newline (C0, DEL, C1, U+2028, U+2029) is replaced by its visible notation in toggled inverse video, leaving the style in force unchanged.',
 ['programs','inputs'],'all call sequences up to a depth over an alphabet covering every builder method, with empty, multi-byte, newline and control-character text',
 'A handful of literal examples are tested; the interplay of element splitting, empty text and resets is not.',
 [LN,L],[('append_text','src/line.rs'),('set_style/set_colors','src/line.rs'),('liso_add!','src/lib.rs')],
 ['Line::chars, as_str, get_style, get_colors'],[('elements','styled spans covering the text','src/line.rs')],HK)

p('P14','Wrapping only turns blanks into line breaks and respects the width',
 'wrap_to_width, and hence wrapln, never panics, never loses, adds, reorders or restyles any character other than spaces at the chosen break points, keeps every existing line break, and leaves no line wider than the width (trailing blanks aside) except where a single character is itself wider. Wrapping a line that already fits changes nothing.',
 ['inputs'],'all texts up to a length over an alphabet of letters, spaces, newlines, multi-byte, wide and zero-width characters, with all placements of style changes, for all small widths',
 'Tests wrap a few ASCII texts, styled only in one case whose result is not examined.',
 [LN],[('wrap_to_width','src/line.rs'),('erase_and_insert_newline','src/line.rs')],
 ['Line::chars after wrapping','rows on the terminal'],[],HK)

p('P15','ANSI text is interpreted as SGR and everything else is kept literally',
 'add_ansi_text applies each SGR sequence to the style and colours exactly as the documented subset says (unsupported codes ignored, extended-colour operands consumed), keeps all other text in order and unstyled by itself, and shows every other escape sequence literally in visible notation. It never panics and never loses a character, for every input including truncated and malformed sequences.',
 ['inputs'],'all token strings up to a depth over ESC, brackets, digits, separators, finals and text, and all SGR code lists up to a length',
 'One example string is tested.',
 [A],[('add_ansi_text','src/line/add_ansi.rs')],['Line::chars'],[],HK)

p('P16','No text can inject control sequences into the terminal',
 'Whatever text is printed, set as status, prompt or notice, typed, pasted, completed, recalled from history or yanked, the terminal only ever receives printable characters and the control sequences Liso itself needs, so that the text can neither move the cursor, change modes, colours or styles, nor erase anything. Each control character in such text is shown in its visible notation.',
 ['inputs','programs'],'every control character and several escape sequences through every path by which text reaches the terminal, in terminal mode with both back ends and in pipe mode',
 'One unit test checks the notation for three characters in a Line, none checks a terminal.',
 [LN,W,C,V],[('add_text','src/line.rs'),('print/print_char','src/term/*.rs')],['bytes on stdout, terminal emulator'],[],HK)

p('P17','History keeps the most recent lines, bounded and de-duplicated as configured',
 'After any sequence of adding lines, changing the limit, toggling duplicate stripping and reading or writing files, the history holds exactly the lines the documented rules leave, oldest first: each added line last, never more than the limit after an addition, no earlier copy of an added line while stripping is on. A history written and read back is unchanged (for lines without line breaks), and every line the user enters in terminal mode is added.',
 ['histories','programs'],'all operation sequences up to a depth over colliding lines, limits None/1/2/3, toggles and file round trips, against a reference list',
 'No test touches History.',
 [H,W],[('add_line','src/history.rs'),('handle_return','src/worker.rs'),('read_history_from/write_history_to','src/history.rs')],
 ['History::get_lines, InputOutput::read_history, files'],[('lines','the history','src/history.rs')],HK)

p('P18','Moving through history shows the right line and never loses the unsent one',
 'Up/down (or control-P/N) show the previous or next history line with the cursor at its end, ring the bell at either end, and going past the newest line brings back the input that was being typed before. Swapping the history for another at any moment, or entering, discarding or clearing input while navigating, never crashes or hangs Liso and leaves navigation consistent with the new history: a recalled line that is also in the new history keeps its place, at the newest such line.',
 ['histories','schedules'],'all key sequences up to a depth with histories of 0-3 lines, with swap_history of shorter, longer, equal and empty histories at every position and under every interleaving up to a deviation bound',
 'No test navigates history; the swap races with the worker.',
 [W,L],[('history_prev/history_next','src/worker.rs'),('BumpHistory','src/worker.rs'),('swap_history','src/lib.rs')],
 ['input line on the terminal, responses, bells'],[('cur_history_index','position in history','src/worker.rs'),('orphaned_new_input','unsent input','src/worker.rs')],HK)

p('P19','A crash or failure while saving history never loses the saved history',
 'With a file-backed history, if the program or system stops at any point of a save, or any file operation of a save fails, loading again yields either the complete history before that save or the complete history it was saving, never a truncated, mixed or empty one. A failing save is reported to its caller as an error, a successful one leaves the file holding exactly the new history, and saving works for a file that does not exist yet.',
 ['crash_points','fault_sequences','histories'],'every prefix of the file-operation log of every short sequence of saves, with every torn-write length, and every single failing operation (including out-of-space part way through a write), from every starting combination of existing files',
 'No test saves a history, and crashes cannot be sampled by a unit test.',
 [H],[('autosave handler of from_file','src/history.rs'),('fallback to the backup file','src/history.rs'),('write_history_to','src/history.rs')],
 ['files after the crash, History::from_file'],[],HK)

p('P20','Autosave runs on the configured interval and when the history is dropped',
 'With interval N the autosave handler is called after every N added lines, exactly then, with the history including those lines, its error being reported to the caller (to the user as a notice when a typed line triggered it, without losing the line or killing Liso); without an interval it is not called while adding. A history that still has unsaved additions calls its handler once more when dropped, including when the InputOutput owning it is dropped.',
 ['histories','fault_sequences'],'all sequences up to a depth of additions, interval and handler changes, failing handlers and drops, against a reference count; plus the same through typed lines',
 'No test configures an autosave.',
 [H,W],[('add_line','src/history.rs'),('Drop','src/history.rs'),('handle_return','src/worker.rs')],
 ['calls of the autosave handler, notices'],[('lines_since_last_autosave','counter','src/history.rs')],HK)

p('P21','Completion sees the true input and its answer is applied exactly',
 'On each Tab the active completor is called exactly once with the current input, a valid cursor position and the number of consecutive presses since any other key, and its answer is applied exactly: text inserted at the cursor with the cursor after it, or the whole line replaced with the given cursor, or nothing. Output, notices or bells it produces appear, replacing or removing the completor takes effect in order with other requests, and without a completor Tab changes nothing.',
 ['histories','inputs','programs'],'all sequences up to a depth of keys, Tab presses, completor changes and completor answers (each variant, wide and multi-byte text, cursor at every character boundary), with prints from inside the completor',
 'No test presses Tab.',
 [K,W],[('handle_completion','src/worker.rs'),('set_completor','src/lib.rs')],['arguments seen by the completor; terminal; Input responses'],[('consecutive_completion_presses','press counter','src/worker.rs')],HK)

p('P22','suspend_and_run hands over a clean terminal, runs once, and restores everything',
 'A function passed to suspend_and_run is run exactly once, in order with the other requests of that thread, with the prompt, status and input erased, raw mode off, cursor visible, wrapping on and styles reset; when it returns the terminal is set up again and status, prompt, input and cursor reappear below whatever it printed, and later output and keys work as before. In pipe mode the function is run as well.',
 ['programs','schedules'],'all call sequences up to a depth mixing suspend_and_run with output, prompts, notices and keys; all interleavings up to a deviation bound with other threads',
 'No test uses it.',
 [W,C,V],[('Request::SuspendAndRun','src/worker.rs'),('suspend/unsuspend','src/term/cross.rs')],['terminal modes and contents seen by the function and after it'],[],HK)

p('P23','Styles and colours reach the screen exactly and never leak',
 'Every displayed character of printed lines, status, prompt, notice and input has exactly the style and colours its Line gives it, a line ending in a background colour, inverse or underline fills its row to the right margin with that look and other lines are followed by plain blanks, and the input takes over the style in force at the end of the prompt. No style or colour leaks into any other cell, into later lines or past shutdown, whatever the sequence of styles.',
 ['programs','inputs','histories'],'all pairs and triples of adjacent differently styled spans over representative style/colour combinations, through println, status, prompt+input and notice, in all orders up to a depth',
 NT+'Escape codes for attribute changes are never inspected.',
 [C,W,LN],[('set_attrs','src/term/cross.rs'),('output_line endfill','src/worker.rs')],['terminal emulator cell attributes'],[('cur_style, cur_fg, cur_bg','attributes believed active','src/term/cross.rs')],HK)

p('P24','Prompt changes take effect at once: text, input permission and clearing',
 'Each prompt call makes the new prompt text, the input permission and, when asked for, the clearing of the input take effect together and in full, whether or not the text differs from the previous prompt, with the cursor moved to the start when the input is cleared. Clearing or replacing the prompt never crashes Liso, never disturbs the input when clearing was not asked for, and input allowed again works normally.',
 ['programs','histories'],'all sequences up to a depth of prompt calls (same/different/empty text × allowed × clear) and keystrokes, against a reference editor',
 'No test sets a prompt in terminal mode.',
 [W,L],[('Request::Prompt','src/worker.rs')],['terminal emulator, cursor visibility, responses'],[('input_allowed','whether keys are honoured','src/worker.rs')],HK)

p('P25','A Line survives serialization unchanged',
 'With the serde feature, serializing any Line, in a self-describing format, and deserializing it yields an equal Line with the same text and per-character styling, that can be extended and displayed like the original.',
 ['inputs','programs','configurations'],'all Lines built by call sequences up to a depth, through JSON and back, then extended',
 'The serde feature has no tests.',
 [LN,L],[('derived Serialize/Deserialize','src/line.rs')],['Line equality, chars'],[],HK)

p('P26','VT52 terminals get the same display and service',
 'With a VT52-type TERM, the same guarantees hold within what such a terminal can show: printed lines, status, notice, prompt and input appear in place with the cursor right (characters it cannot show replaced by placeholders of the same width), colours map to the documented palette with no leaks, input keys and malformed bytes are handled without hanging, and shutdown completes and restores the terminal.',
 ['programs','inputs','schedules','configurations'],'sequences of calls and keys up to a depth for each VT52 TERM family and colour depth on a VT52 emulator; all short byte strings; shutdown under all interleavings up to a deviation bound',
 'The VT52 back end has no tests and cannot be run by CI on real hardware.',
 [V,'src/term.rs'],[('Vt52','src/term/vt52.rs'),('new_term','src/term.rs')],['VT52 emulator, responses, shutdown'],[],HK)

p('P27','Control-Z suspends and resumes cleanly',
 'When control-Z is pressed the terminal is back in normal mode (raw mode off, cursor visible, wrapping on, styles reset) at the moment the process stops, and after it is resumed the status, prompt, input and cursor are displayed again and keys and output continue with nothing lost. This holds however often it is repeated and whatever is on screen.',
 ['histories','schedules'],'all sequences up to a depth of control-Z among keys, prompts, notices, status changes and prints',
 'No test stops the process.',
 [W,U,C],[('handle_suspend','src/worker.rs'),('sigstop_ourselves','src/unix_util.rs')],['terminal modes at the stop and after resume'],[],HK)

p('P28','Every request takes effect on its own, without further activity',
 'Once Liso is idle, the effect of every call made so far is complete on the terminal: no text, status change, bell or cursor update stays in a buffer until another call, key or timer comes along. In particular each bell call, and each bell due to history navigation, rings exactly once and promptly.',
 ['programs','histories','schedules'],'every call (and bell-ringing key) after every sequence of calls up to a depth, batched or spaced out',
 'Nothing tests when output is flushed.',
 [W,C],[('rollout flush','src/worker.rs'),('Request::Bell','src/worker.rs')],['bytes that reached the terminal when all threads are idle'],[('rollout_needed','skips the flush when false','src/worker.rs')],HK)

p('P29','A panic leaves a usable terminal and the panic hook is given back',
 'If any thread panics while Liso is using the terminal, then by the time the panic message is printed the terminal is in normal mode: raw mode off, cursor visible, line wrapping on, styles reset. While Liso is suspended or after it has been shut down, the panic hook that was installed before Liso was created is in force again, across any number of instances and suspensions.',
 ['fault_sequences','histories'],'a panic at every point of several sessions (before, between calls, inside suspend_and_run, after shutdown, second instance) with default and custom hooks',
 'No test panics with a live terminal.',
 [C,V],[('panic hook in unsuspend','src/term/cross.rs'),('set_hook(old_hook) in suspend','src/term/cross.rs')],['terminal modes when the hook runs; which hook runs'],[('old_hook','saved hook','src/term/cross.rs')],HK)

p('P30','Captured standard error is shown as output and restored (experimental feature)',
 'With the capture-stderr feature, each line written to standard error while Liso uses the terminal is shown exactly once, whole and in the order written, as a line of output ("E: " in bold red, then its text in red) above the status, prompt and input, however the bytes are split into writes, and an unfinished last line is not lost but written out on shutdown (lines written while the shutdown is going on may be lost or come out of order). Standard error is the original file again, and works, once shutdown has finished, also after Liso died of a failure, and the next instance captures it again. Where there is no terminal, or standard error is redirected, it is left alone.',
 ['schedules','fault_sequences'],'all interleavings of stderr writers, the capture thread and shutdown',
 'The feature has no tests.',
 ['src/stderr_capture.rs'],[('attempt_stderr_capture','src/stderr_capture.rs'),('wait_until_not_captured','src/stderr_capture.rs'),('Request::StderrLine','src/worker.rs')],['terminal emulator','simulated fd table'],[],HK)
