# properties -> specification modules, and what each assumes beyond the common trusted base
SPECS = {
    "C01": "storage,values", "C02": "storage", "C03": "storage", "C04": "storage", "C05": "values",
    "C06": "interp", "C07": "interp", "C08": "interp,storage,values", "C09": "interp,storage",
    "C10": "tokenizer", "C11": "tokenizer", "C12": "parser", "C13": "parser",
    "C14": "servers,aservers", "C15": "servers,interp,aservers", "C16": "servers,aservers",
    "C17": "http", "C18": "http",
    "C19": "servers,aservers,interp", "C20": "storage,interp,servers,aservers", "C21": "servers",
}

MAPS = "std HashMap behaves as a map (insert, get, get_mut, remove, contains_key, len); std Vec as a sequence"
CLONES = "Clone of a local type returns an equal value (verified separately, contracts in vc/specs/values.py); Clone of std types returns an equal value"
THREADS = "Arc shares one value; a lock gives exclusive access and is not poisoned (the value behind it may have been changed by others: it is arbitrary); a message received from a channel is one that was sent on it, unchanged; a spawned thread runs its closure"
SERVERS = ["tokenising, parsing and executing are used through their contracts (C06-C13): tokens and statements are functions of the text, the outcome of an execution is any response", "a worker is verified round by round from an arbitrary state; nothing is claimed about interleavings (C19)"]
ASYNC = ["async functions: rustc's coroutine entered at its start and run to its end; a poll that is pending changes nothing and is repeated; a spawned task runs as if at the moment it is spawned; tokio's channels deliver what was sent; the polling and scheduling of the runtime (tokio::main, join!) is trusted",
         "the async listener is verified on rounds whose receive and send operations terminate; the count of its waiting loop does not overflow"]
NOTES = {
    "C01": {"trusted": [MAPS, CLONES, "SystemTime::now returns some time; comparison and addition of times are exact nanosecond arithmetic"],
            "assumptions": ["the history property follows from the per-operation contracts by induction over the history: every operation preserves the invariant and changes only what its contract says"]},
    "C02": {"trusted": [MAPS, CLONES], "assumptions": ["each operation may read the clock several times; absence is judged against one of its readings"]},
    "C03": {"trusted": [MAPS, CLONES, "the random index is any value of its type"], "assumptions": []},
    "C04": {"trusted": [MAPS, CLONES], "assumptions": ["usize arithmetic is 64 bit"]},
    "C05": {"trusted": [MAPS, "std HashMap finds a key exactly when an equal key was inserted, provided equal keys hash equally and equality is an equivalence (both proved for StorageValue keys)"],
            "assumptions": ["equality of f32 is left uninterpreted"]},
    "C06": {"trusted": ["the store changes only while a statement runs (the function that runs one statement is used through its contract: any response but an authorisation error, any effect)"], "assumptions": ["expiring keys is permitted at every level, as it removes only what no operation can see"]},
    "C07": {"trusted": ["the function that runs one statement is used through its contract: any response but an authorisation error, any effect"], "assumptions": []},
    "C08": {"trusted": [MAPS, CLONES], "assumptions": ["the storage is used through the contracts of C01-C04", "an expired entry of the named key may be collected by any operation that finds it expired"]},
    "C09": {"trusted": [CLONES, "SystemTime is a signed 64 bit number of seconds and nanoseconds; checked_add fails exactly on overflow"], "assumptions": ["the storage is used through the contracts of C01-C04"]},
    "C10": {"trusted": [MAPS, CLONES, "char::is_whitespace, is_numeric, is_alphabetic: exact for ASCII, arbitrary beyond (a blank is neither letter nor number)", "str::parse, to_lowercase: total functions of their text (never panic)", "str::chars yields the characters of the text; collecting characters yields a text"], "assumptions": ["usize arithmetic is 64 bit"]},
    "C11": {"trusted": [MAPS, CLONES, "char::is_whitespace, is_numeric, is_alphabetic: exact for ASCII, arbitrary beyond (a blank is neither letter nor number)", "the value of a number is what str::parse::<i64> or ::<f32> returns for its text; letter case is ignored as str::to_lowercase does", "str::chars yields the characters of the text; collecting characters yields a text"],
            "assumptions": ["the lexical rules (recursive specification functions over the characters in vc/specs/tokenizer.py) are the definition of what a text says; their defining equations are assumed"]},
    "C12": {"trusted": [MAPS, CLONES], "assumptions": ["usize arithmetic is 64 bit"]},
    "C13": {"trusted": [MAPS, CLONES], "assumptions": ["the grammar (recursive specification functions over the token sequence in vc/specs/parser.py) is the definition of what a query says; its defining equations are assumed"]},
    "C14": {"trusted": [MAPS, CLONES, THREADS], "assumptions": SERVERS + ASYNC + ["the answer of the authentication service is a function of the headers (any function; the table of MockAuthenticator is verified separately)"]},
    "C15": {"trusted": [MAPS, CLONES, THREADS], "assumptions": SERVERS + ASYNC},
    "C16": {"trusted": [MAPS, CLONES, THREADS], "assumptions": SERVERS + ASYNC + ["a message sent on a channel whose receiver lives is delivered"]},
    "C19": {"trusted": [MAPS, CLONES, THREADS], "assumptions": SERVERS[:1] + ASYNC + ["that the responses are those of a serial order follows because one executor, verified round by round, is the only one to use the store"]},
    "C20": {"trusted": [MAPS, CLONES, THREADS, "the random generator gives every value with a positive probability, independently each time"],
            "assumptions": SERVERS[:1] + ASYNC + ["that an expired entry is removed with probability one follows from passes being queued for ever, each able to choose any listed key, and every expiring entry being listed (storage invariant)", "the number of rounds of a worker is unbounded: each is verified from an arbitrary state"]},
    "C21": {"trusted": [MAPS, CLONES, THREADS, "a thread that was told to stop ends its current round: the operations of a round other than its waits (authentication, analysis, execution, writing an answer) end"],
            "assumptions": SERVERS[:1] + ["that the process ends follows because every worker's waits are limited and each round that goes on has found the stop signal down", "the threads that wait for connections end with the process"]},
    "C17": {"trusted": [MAPS, "httparse::Request::parse: its result is a function of the bytes alone (complete with a body start inside them, partial, or an error), a complete result does not change when bytes are appended, and it stores at most as many headers as there is room for",
                        "std: String::from_utf8 and from_utf8_lossy, str::parse::<usize>, eq_ignore_ascii_case, and serde_json::from_str are functions of their argument (never panic)",
                        "TcpStream::read fails, or fills the front of the buffer with the next bytes of the connection, returning 0 exactly when the peer has closed"],
            "assumptions": ["reading is verified round by round against specification functions of all bytes received so far; that the loop ends follows because a round needs new bytes or the end of the connection", "usize arithmetic is 64 bit"] + ASYNC[:1]},
    "C18": {"trusted": ["write_all succeeds only if every byte was written", "serde_json::to_value never fails on a response, and what it and Display produce is a function of the value", "String::as_bytes yields the text's UTF-8 bytes, len their number"],
            "assumptions": ["the JSON form of a response (derived Serialize) is compared with an independent encoding in the native run only"] + ASYNC[:1]},
}
