"""Claims: property -> level, technique, note."""
D = "contract-based deductive verification of the extracted source (Verus/Z3), with a concrete search on the real code for failing inputs"
def p(note): return {"level": "proof", "technique": D, "note": note}
CLAIMS = {
    "C01": p("Every constructor, setter, wither and the part table (Toc, replace_part) under contract, in both feature configurations (with and without timestamps); text and order as theorems over the contracts. utc2k's clock is an opaque 19-byte stamp."),
    "C02": p("Every IntoMsgPrefix implementation, Msg::new, the one-shot constructors and the prefix setters under contract."),
    "C03": p("strip_ansi/without_ansi and the ANSI scanner under contract, part by part, in both feature configurations."),
    "C04": p("All of width() and the NoAnsi iterator under contract; unicode-width itself is an uninterpreted function."),
    "C05": p("length_width() and NoAnsi under contract, maximality and safety as a theorem over the contract."),
    "C06": p("fit_to_width(), OnlyAnsi, next_ansi(), Msg::fitted under contract, the property as a theorem over the fitted form, line by line."),
    "C07": p("Every operation of Progless (constructors, increment, set_done, add, remove, reset, finish, titles, pushing and ticking) under contract over an abstract state; the property as a theorem over every history of operations. Atomics are plain cells (one thread); the ticker thread is a stand-in that does nothing but tick."),
    "C08": p("Every function that touches the shared counters or flags (other than reset, set_done and construction) under a contract over a protocol: each atomic access returns anything the other threads may have left, and must be one that the protocol's rules permit; that any interleaving of accesses by the rules loses nothing is a theorem over all histories of any number of threads. Atomics are sequentially consistent; what a mutex guards is anything at every lock."),
    "C09": p("set_bars, the status line, tick and its helpers under contract; width and proportion as theorems over what a tick draws. dactyl's number formatting is uninterpreted but for its length and being printable."),
    "C10": p("set_title, set_doing, print and tick under contract over the bytes written; the property as theorems over what a tick draws, any title, tasks and size."),
    "C11": p("progless_task, add and remove under contract over the set of tasks; BTreeSet by a trusted contract. Who adds, clears and leaves tasks behind their lock is a protocol (unit screen); that none is active after the end is a theorem over every history of any threads that follow it."),
    "C13": p("Every From/TryFrom conversion of both types (expanded macros), reset and try_reset under contract for all values."),
    "C19": p("push_msg and tick under contract over the bytes written."),
    "C14": p("main, main__, the three parsers, Settings, the errors and the help screen under contract over a ghost log of what is written; what a run of arguments means as theorems (any order, any number). argyle's parser, the process arguments and dactyl's btou by trusted contracts; write errors are left out."),
    "C15": p("Both tables, the conversions and parse_kind under contract for every byte string; agreement as theorems."),
    "C12": p("BeforeAfter and Msg::with_bytes_saved under contract; dactyl's formatting and float division are uninterpreted functions."),
    "C21": p("The ticker's thread, starting, stopping and dropping it and the calls that do so under contract over a protocol of its locks, flag, handle and threads (who may reset the flag, join, spawn, draw); tick says whether progress was found running, and who finds it not running ends; never two tickers and none after the end are theorems over every history of any threads that follow it. That a ticker told to end wakes up and that threads get their turn is trusted (Condvar, Mutex and join by trusted contracts), so waiting forever is excluded by order (no lock the ticker needs is held at a join, its flag stays set), not by a proof of fairness."),
 "C22": p("The three listeners (the closures given to signal-hook), their registration, what a ticker does when it starts, before it ticks and when it ends under contract over a protocol of the switch and the cursor (who hides it looks at the switch again or shows it; the listener that sets the switch shows it before it returns or exits, and uses nothing that may be locked); that the cursor is visible after an interrupt is a theorem over every history of any listeners and tickers. What sigint, tick_resize and tick do is unit progsig (the progress code as compiled with signals), title and size as theorems. signal-hook, the kernel, OnceLock and write(2) by trusted contracts; that a signal is delivered at all is trusted."),
 "C20": p("Every macro_rules definition of fyi_ansi, and the keyword table its build script generated, translated into a function from tokens to text and put under contract; the keyword table row by row (computed), the sequence by induction over any list of keywords, the wrappers for any contents. Rust's own expansion (first arm that matches, concat!, hygiene) is trusted; a content is one token; lists longer than the compiler's recursion limit admits do not compile."),
 "C23": p("Every function that touches the flags or the standard error lock under a contract over a protocol (progress is stopped under that lock, cleared before letting it go, and drawn only if seen running under it); that no frame survives is a theorem over every history of any threads that follow it. What is behind the other locks and cells is anything."),
 "C16": p("The prompt loop under contract over a ghost log of writes and reads (any number of answers, any read error); str::trim and to_lowercase by trusted contracts. Write errors are left out."),
    "C17": p("Every comparison, ordering, hashing, borrowing and conversion implementation under contract, agreement as a theorem."),
    "C18": p("from_u8, the two tables and the trait implementations under contract for all 256 codes, distinctness as a theorem."),
}
