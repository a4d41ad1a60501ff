SEQ = 'exhaustive enumeration of operation sequences on the real code under a controlled runtime, compared step by step with an executable reference model on a terminal emulator'
T = 'Trusts the terminal emulator, the reference model and the runtime that stands in for std, tokio, crossterm and nix; says nothing beyond the alphabet and depth in the evidence. '
CLAIMS = {
 'P01': (SEQ, T + 'Within the bounds every sequence is executed; screen text, scrollback and cursor are compared after every settled operation.'),
 'P02': ('exhaustive enumeration of edit-area state pairs and triples, differential against a fresh instance', T + 'Every ordered pair and triple of catalogued display states is driven through the incremental redraw and compared cell by cell with drawing the last one from scratch.'),
 'P16': (SEQ, T + 'Every control character and every short mixture is driven through every path by which text reaches the terminal.'),
 'P23': (SEQ, T + 'Cell attributes are compared exactly, with and without background-colour erase.'),
 'P24': (SEQ, T + 'Keys are only sent to a prompt that has taken effect.'),
 'P28': (SEQ, T + 'The emulator only sees what has been flushed, so anything withheld at quiescence is a mismatch.'),
 'P04': (SEQ, T + 'Every key from every short input and cursor position, and every key sequence up to the depth, in both input back ends; documented bindings only.'),
 'P05': ('exhaustive enumeration of byte strings and of the ways of cutting them into reads on the real decoder, against a reference decoder', T + 'The exact reference covers well-formed input; malformed bytes are checked for consistency across cuts and for later keys arriving.'),
 'P12': (SEQ + '; deviation-bounded schedule exploration of shutdown and reading', T + 'Bytes written and responses are compared exactly.'),
 'P13': ('exhaustive enumeration of Line-building call sequences on the real code against a list of styled characters', 'Says nothing beyond the alphabet and depth in the evidence; no schedules are involved.'),
 'P14': ('exhaustive enumeration of texts, styles and widths on the real wrapping code against a relational specification', 'Says nothing beyond the alphabet and length in the evidence.'),
 'P15': ('exhaustive enumeration of strings and SGR sequences on the real parser against a reference interpreter', 'Says nothing beyond the alphabet and length in the evidence.'),
 'P17': ('exhaustive enumeration of operation sequences on the real History against a reference list', 'Files are those of a scratch directory; says nothing beyond the alphabet and depth in the evidence.'),
 'P18': (SEQ + '; deviation-bounded schedule exploration of swapping the history while keys arrive', T + 'Schedules are explored with a bounded number of deviations.'),
 'P19': ('exhaustive enumeration of crash points with torn writes and of failing file operations over save histories of the real code', 'A crash loses any suffix of unsynchronised writes; directory operations are taken to persist in order.'),
 'P20': (SEQ + '; deviation-bounded schedule exploration of shutdown', T + 'The handler is a recording one.'),
 'P21': (SEQ, T + 'What the completor is called with and every kind of answer are compared exactly.'),
 'P22': (SEQ + '; deviation-bounded schedule exploration of threads that suspend and print', T + 'The suspended function leaves the cursor at the start of a row; modes, colours and styles it may leave as it likes.'),
 'P27': (SEQ + '; deviation-bounded schedule exploration of stops while other threads print', T + 'A stop stops all threads; the shell leaves the cursor at the start of a row.'),
 'P25': ('exhaustive enumeration of Lines, round-tripped through self-describing formats', 'Lines up to the length and styles in the evidence; serde_json and a value tree are the formats.'),
 'P26': (SEQ, T + 'The VT52 starts with the colours Liso takes for its defaults; cursor keys are not sent.'),
 'P03': ('deviation-bounded schedule exploration of threads that print while the user types, on the real code; exhaustive enumeration of sequences over several handles', T + 'Threads switch at operations on channels, locks, threads, files and the terminal.'),
 'P06': ('exhaustive enumeration of sequences of read calls against timelines of responses; deviation-bounded schedule exploration of senders and a reader', T + 'What is made at the very end of a time limit may go to that read or the next.'),
 'P07': (SEQ + '; deviation-bounded schedule exploration of shutdown against typing, output and timers', T + 'The clock may jump to the next deadline at any point.'),
 'P08': ('exhaustive enumeration of batches and of ways to shut down; deviation-bounded schedule exploration of printing against shutdown', T + 'A line of a thread that is not synchronised with the shutdown may be delivered or make its caller panic.'),
 'P09': ('exhaustive enumeration of sequences of instances, handles and global output, in both configurations of the library; deviation-bounded schedule exploration of two threads that each want an instance', T + 'A refused instance is a panic, which resets the modes of the terminal as any panic does.'),
 'P10': ('exhaustive enumeration of failing writes over operation sequences and of sequences of reads after the failure; deviation-bounded schedule exploration of a waiting reader', T + 'Writes fail from some point on, fail once, or are cut short; the end of standard input is not a failure.'),
 'P11': (SEQ + '; deviation-bounded schedule exploration of notices against timers and keys', T + 'Times are virtual.'),
 'P30': (SEQ + '; deviation-bounded schedule exploration of writers, starting and ending instances', T + 'Run on a build of the library of its own. What is written while a shutdown is under way may be lost; nobody else holds a copy of standard error.'),
 'P29': (SEQ + '; deviation-bounded schedule exploration of a panic against everything Liso does with the terminal', T + 'A panic hook runs without other threads in between, except one that it waits for.'),
}
NOT = {}
