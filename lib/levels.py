"""Per property: (level, note for the manifest), and assumptions that aren't those of a single contract.

"proof" is declared where the contracts of the property's units, taken together, cover its statement; the scenarios then are a
second, bounded layer.  Where a part of the statement is only covered by scenarios or by a bounded contract the level is
"exploration" and the note says which part is proved."""

ASYNCIO = ("asyncio: tasks of the loop run one at a time and switch only at an await; cancel() raises CancelledError at the task's next or current await; "
           "StreamReader/StreamWriter keep the order of bytes; a finally block runs")
SQLGLOT = "SQLGlot's parser, generator and executor read, write and execute SQL as MySQL does (apart from the known findings)"
APP = "the application's callbacks and row sources may do anything but touch the library's private state"

LEVEL = {
    "C01": ("proof", "authentication, COM_CHANGE_USER, the command loop and the connection's life cycle are proved for all packets, plugins and decisions; "
            "the three plugins of the library, the parsers of the login packets and the registry are under contract as well"),
    "C02": ("proof", "the plugins' decisions, the scramble algebra (SHA-1 uninterpreted), nonce, packet routing and login parsers are proved for all responses and secrets"),
    "C03": ("proof", "every command handler and every packet maker is proved against an automaton of the protocol and byte layouts, for all capabilities, results and failures at any await"),
    "C04": ("proof", "reading, writing and the switch to TLS are proved with loop invariants for all payload sizes and segmentations"),
    "C05": ("proof", "encoders, null bitmaps, row iteration and type inference are proved for all values and any number of rows and columns"),
    "C06": ("proof", "placeholder scanner, literal encoder, substitution, parameter decoding and long data are proved for all texts and values"),
    "C07": ("exploration", "readers, parsers, framing, command loop and life cycle are proved to end, with progress variants, in an answer, an error packet or a close; "
            "that no statement blocks the event loop is explored in scenarios (SQLGlot is not under contract: known finding C07-executor)"),
    "C08": ("proof", "frame condition of all contracts (no function under contract writes state that connections share, compared after each path) and separation of two connections' objects"),
    "C09": ("proof", "kill() and the command loop, all handlers, streaming and the life cycle are proved with cancellation at every await"),
    "C10": ("proof", "the life cycle of a connection is proved with failure or cancellation at every await and in every callback"),
    "C11": ("proof", "execute, fetch, reset and close are proved over an abstract row sequence for all fetch sizes"),
    "C12": ("exploration", "writing with back-pressure, streaming handlers and cooperative iteration are proved with loop invariants; the bound on buffered rows end to end is explored in scenarios "
            "(known finding C12-peek-null)"),
    "C13": ("exploration", "handling of a text of any number of statements, middlewares, parsing, USE/INIT_DB and forwarding of text and attributes are proved; "
            "which tables a query reads is a contract over bounded queries, and SQLGlot's parser is trusted"),
    "C14": ("exploration", "the variables' store, coercion, time zones, SET, SET_VAR (restoring on every exit) and NOW() are proved; reading a value back through SQLGlot's executor is explored (known finding C14-nul)"),
    "C15": ("proof", "the character set tables (exhaustively, against independent ones) and which one every string of every packet goes through are proved"),
    "C16": ("exploration", "LIKE for all values and patterns, the columns of mappings of any size, SHOW's translation and the packets are proved; the catalog tables are a contract over bounded schemas; "
            "SQLGlot's executor is explored in scenarios (known findings C16-backtick, C16-backslash)"),
    "C17": ("proof", "null bitmap, parameter block, types, values and hand-over of attributes are proved for any number of attributes and parameters"),
    "C18": ("proof", "id allocation (loop invariant over the registry, any history), removal, kill by id, handshake and CONNECTION_ID() are proved"),
}

ASSUMES = {p: [ASYNCIO, APP] for p in LEVEL}
for _p in ("C06", "C07", "C13", "C14", "C16"):
    ASSUMES[_p] = ASSUMES[_p] + [SQLGLOT]
