#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long strings stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":mech,"where":files[0]}]+[{"name":f,"where":files[0]} for f in kw.get("functions",[])]}
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
M="fyi_msg/src/msg/mod.rs"; K="fyi_msg/src/msg/kind.rs"; A="fyi_msg/src/ansi.rs"; F="fyi_msg/src/fitted.rs"; G="fyi_msg/src/progress/mod.rs"; B="fyi_msg/src/progress/ba.rs"
p("C01","A message's text is always exactly its parts, in order",
 "After any history of constructors, setters and builder calls, a message's text is exactly indentation, then timestamp, then prefix, then body, then suffix, then line break, each being what was last set for that part (indentation is four spaces per tab, at most 32 spaces) and empty if never set; the whole text given to a plain string conversion is the body. Every edit replaces its own part completely, leaves all other parts as they were, and never panics. This holds with and without timestamp support.",
 ["inputs","histories","configurations"],"every UTF-8 string for every part, every order and number of edits, both timestamp configurations",
 "The tests and doctests exercise a few dozen fixed messages; an off-by-one in one entry of the offset table only shows after a particular later edit of another part, with particular lengths.",
 [M,"fyi_msg/build.rs"],"A single String plus a table of contents of byte offsets that each edit must patch for every later part.",functions=["Msg::new","Msg::replace_part","Msg::set_*","Msg::with_*","Toc::part_rng","Toc::part_len","Toc::resize_part"])
p("C02","Every prefix source renders the documented prefix",
 "A built-in kind's prefix is its name and a colon in bold in that kind's colour, a reset and a space; a text prefix is the text followed by \": \"; a text prefix with a colour is the bold colour sequence, the text, a colon, a reset and a space; and an empty text or prefixless kind gives no prefix at all. The rendering is the same for every string type, for a colour given by number or by name, and whether the prefix is given at construction or set later. Every one-shot constructor equals that kind's message plus a line break.",
 ["inputs","configurations"],"every prefix text, all 256 colours, all message kinds, all five string types",
 "Tests try a handful of texts and colours for one or two string types; the announced prefix length must equal the pushed length for all of them or later edits corrupt the message.",
 [K,M,"fyi_msg/build.rs"],"The prefix trait's length/push/str triple, generated for fifteen types, must agree because construction records the length without looking at the text.",functions=["IntoMsgPrefix::prefix_len","IntoMsgPrefix::prefix_push","IntoMsgPrefix::prefix_str","MsgKind::as_str","MsgKind::prefix_color"])
p("C03","Stripping ANSI removes exactly the escape sequences of each part",
 "For every message, stripping ANSI removes from each of timestamp, prefix, body and suffix exactly the CSI and OSC escape sequences found by one left-to-right scan of that part (a sequence that is never closed extends to the end of its part) and keeps every other character, as well as indentation and line break. It reports a change if and only if something was removed, and never panics. Later edits still replace exactly their own part.",
 ["inputs","histories"],"every UTF-8 string in every part, including unterminated, nested-looking and back-to-back sequences",
 "Tests use well-formed sequences only; the scanner works on byte offsets inside a shared string, so malformed or multi-byte content can shift or overrun a range.",
 [A,M],"An escape-sequence finder returning byte ranges, and an in-place removal loop that reconciles the offset table afterwards.",functions=["next_ansi","Msg::strip_ansi","Msg::without_ansi","Toc::resize_part"])
p("C04","Display width counts exactly the visible characters",
 "The display width of any string is the sum of the Unicode display widths of its characters that lie outside CSI and OSC escape sequences, with control characters counting zero; an unclosed sequence hides everything to the end of the string. It never panics.",
 ["inputs"],"every UTF-8 string",
 "Tests measure a few strings; the iterator's look-ahead (an escape followed by something else, an escape inside an OSC sequence) has many states that fixed samples do not combine.",
 [F,A],"A character iterator with one character of look-ahead that skips escape sequences.",functions=["width","NoAnsi::next","NoAnsi::drain_osc"])
p("C05","Width-limited length is a safe and maximal cut point",
 "For any string and any limit, the returned length is a character boundary of the string, the text before it has a display width of at most the limit, and it is maximal: the full length if everything fits, and otherwise the position of the first visible character that would exceed the limit. It never panics, so slicing the string there is always safe.",
 ["inputs"],"every UTF-8 string and every limit from 0 to the maximum",
 "Tests check a few cut points; correctness depends on byte accounting through every kind of escape sequence and multi-byte character.",
 [F,A],"Width accumulation over the ANSI-skipping iterator, whose byte counter must stay in step with the characters it hides.",functions=["length_width","NoAnsi::next","NoAnsi::drain_osc","NoAnsi::byte_pos"])
p("C06","Fitting text to a width loses only visible overflow",
 "For any text and any width of at least one, every line of the fitted text has a display width of at most that width, ends with the same line break (LF, CRLF or none) as the original line, still contains every escape sequence of the original line in the original order, and its visible characters are the longest prefix of the original line's visible characters that fits. Lines that already fit are unchanged, the number of lines never changes, and it never panics.",
 ["inputs"],"every UTF-8 text (any number of lines, any escape sequences, closed or not) and every width",
 "Tests cover under ten texts; the loss or duplication of a break or a sequence depends on where the cut falls relative to sequences and on what follows.",
 [F,A,M],"Per-line cut, re-attachment of the escape sequences found in the removed part, and re-attachment of the line break.",functions=["fit_to_width","Msg::fitted","length_width","OnlyAnsi::next","next_ansi"])
p("C07","Progress counters follow their operations and stop exactly at the total",
 "For any sequence of operations on a progress bar used from one thread: the done count never exceeds the total; incrementing by n adds exactly n and setting the count sets exactly that, unless the total would be reached, in which case progress stops with done equal to the total; incrementing by zero does nothing. Once stopped or finished, done equals total, no task is active and every counting or task operation is without effect until a reset, which starts again at zero with the new total. A progress bar created for a total is running from then until the total is reached or it is finished.",
 ["inputs","histories"],"every total, every sequence of increments, set, add, remove, finish and reset calls with any arguments",
 "No test drives the counter through histories; packed counters and flag bits make boundary cases (total 1, maximum total, overshoot by up to 2^32-1) specific.",
 [G],"Done and total packed in one 64-bit atomic, plus a running bit in an atomic flag byte.",functions=["ProglessInner::increment_n","set_done","stop","reset","remove","add","running"])
p("C08","Concurrent progress updates are never lost",
 "When any number of threads increment one progress bar, or remove active tasks from it, at the same time, the done count afterwards is exactly the sum of all those increments (one per task actually removed), capped at the total, at which point progress stops. No interleaving loses or repeats an increment, lowers the count, or changes the total.",
 ["schedules","histories"],"every interleaving of any number of threads calling the increment and remove operations",
 "Unit tests are single-threaded; a lost update needs two threads between the same load and store.",
 [G],"Read-modify-write of a shared packed counter, which must be atomic as a whole.",functions=["ProglessInner::increment_n","ProglessInner::remove","ProglessInner::stop"])
p("C09","The progress bar fills its space in proportion, for every total",
 "In every drawn full-size progress frame with room for a bar of at least ten columns, the status line is exactly as wide as the usable terminal width (one column less than reported, at most 255), and otherwise no bar is drawn. The filled length is the bar space times done divided by total rounded down, so it is empty at zero, and full only when done equals total; the done, total and percentage figures shown are those of the current counters. No total up to the maximum makes drawing panic.",
 ["inputs","configurations"],"every done/total pair with done at most total at most 4294967295, and every terminal width",
 "No test draws a bar; arithmetic overflow only shows for totals in the tens of millions.",
 [G],"Fixed-width arithmetic that splits a byte-sized space and slices two 256-byte tables.",functions=["ProglessBuffer::set_bars","ProglessInner::tick","ProglessBuffer::print"])
p("C10","Title and task lines fit the screen and the cursor returns to the top",
 "In every drawn full-size frame the title is at most one line, no wider than the usable terminal width; the active tasks are drawn one per line, in sorted order, each with its arrow prefix and cut to at most the usable width less twelve columns at a character boundary, provided title, status and all tasks fit the usable height together and there are at least two columns to use, and are otherwise left out altogether. The frame ends by moving the cursor up by exactly the number of line breaks it printed.",
 ["inputs","configurations","histories"],"every set of task labels, every title, every terminal size",
 "No test renders a frame; a wrong rewind count or an overlong line only shows on a real terminal of a particular size.",
 [G],"Line counting while filling the title and task buffers and a lookup table of cursor-up sequences.",functions=["ProglessBuffer::set_title","ProglessBuffer::set_doing","ProglessBuffer::print","ProglessInner::tick"])
p("C11","Task labels are sanitised, and tracked exactly once",
 "A task label is stored with trailing whitespace and escape sequences removed, every remaining whitespace character turned into a space, and all control characters dropped; a label with nothing left is refused. Adding returns true exactly when progress is running and the stored label was not already active, and no task stays active once progress has ended, whatever other threads add at that moment. Removing a label removes the active task with that label (as given without trailing whitespace, or else in stored form) and advances the count by exactly one if there was one, and otherwise changes nothing.",
 ["inputs","histories","schedules"],"every label, every history of adds and removes, and every interleaving of threads that add, remove, stop and reset",
 "No test covers labels with control characters, escape sequences or unusual whitespace; one stray line break in a label breaks the whole frame.",
 [G,A],"A sanitising filter in front of an ordered set shared by add and remove.",functions=["progless_task","ProglessInner::add","ProglessInner::remove"])
p("C12","Before/after sizes report savings and growth exactly",
 "With both sizes non-zero, the amount saved is before minus after when that is positive and nothing otherwise, the amount grown is after minus before when that is positive and nothing otherwise, and each percentage is that amount divided by before; if either size is zero or was never given, none of these is reported. A message annotated with the sizes gets the suffix \" (Saved N bytes, P%.)\" (dimmed) when something was saved and \" (No savings.)\" otherwise, and no other part of it changes.",
 ["inputs"],"all pairs of 64-bit sizes and every message",
 "Tests compare a few pairs; wrap-around and the zero conventions are corner cases of a 128-bit input space.",
 [B,M],"Saturating subtraction folded into non-zero optional integers.",functions=["BeforeAfter::less","BeforeAfter::more","BeforeAfter::less_percent","BeforeAfter::more_percent","Msg::with_bytes_saved"])
p("C13","Every integer total is accepted or refused correctly",
 "Creating a progress bar from an integer of any type succeeds exactly when the value is from 1 to 4294967295, and the bar then runs with that value as its total and nothing done. Zero gives the empty-total error when the type can express it, and every negative or larger value gives the overflow error; resetting to a number applies the same rule.",
 ["inputs"],"every value of all twelve integer types and all non-zero unsigned types",
 "Tests cannot enumerate 64- and 128-bit inputs; a cast instead of a checked conversion is wrong only beyond 2^32.",
 [G],"Conversion impls generated per integer type.",functions=["TryFrom<..> for ProglessInner","TryFrom<..> for Progless","Progless::try_reset"])
p("C14","The command line prints exactly the requested message and exit code",
 "For any arguments after a message subcommand, in any order and mix of long and short spellings: the first non-empty argument that is neither a recognised option nor an option's value is the message, a help option shows help unless an error comes before it, and a second such argument, an argument that is not valid UTF-8, or no message at all is an error (exit 1, nothing on standard output). Otherwise exactly the message with its built-in or custom coloured prefix is written, indented and timestamped if asked, with a line break, to standard output or to standard error if asked, and the exit status is the requested 0 to 255 or else 0; numbers out of range are ignored in favour of the default or earlier value. For the blank subcommand it is exactly the requested number of line breaks (the largest if repeated, and one by default).",
 ["inputs"],"every argument vector",
 "There is no CLI test in the tree; the option grammar has unbounded combinations.",
 ["fyi/src/cli.rs","fyi/src/main.rs","fyi/src/error.rs"],"One pass over the parsed arguments folding them into settings.",functions=["parse_msg","parse_blank","main__","main","Settings::exit"])
p("C15","Every subcommand word selects its kind, and nothing else does",
 "Each message kind's command word (ignoring surrounding ASCII whitespace), and \"prompt\" as a synonym of \"confirm\", converts to that kind, the conversion is exact (case-sensitive, no prefixes or extensions), and every other byte string converts to the empty kind. Kind, command word and displayed name agree for all kinds, and the command line shows help or the version, and no message, when the first argument is not a subcommand.",
 ["inputs"],"every byte string and every kind",
 "Tests list a few words; a wrong or shadowed arm for one word is invisible to the others.",
 [K,"fyi/src/cli.rs","fyi/src/main.rs"],"Hand-written match tables in both directions.",functions=["MsgKind::from(&[u8])","MsgKind::command","MsgKind::as_str","MsgKind::is_empty","parse_kind"])
p("C16","Prompts decide by the first valid answer only",
 "A prompt shows the message with the yes/no hint in place of its suffix (the default underlined) and without line break, reads a line, and returns true for y or yes, false for n or no, in any letter case and with surrounding whitespace, and the default for an empty answer; any other answer prints an error and asks again, ignoring what was typed before. The question and errors go to standard output, or all to standard error for the standard-error variants, and the message itself is not changed.",
 ["inputs","histories"],"every sequence of input lines, both defaults, both streams",
 "No test can feed standard input; stale input carried over to the next round only shows with particular sequences of answers.",
 [M],"A read loop over one reused line buffer.",functions=["Msg::prompt__","Msg::prompt","Msg::prompt_with_default","Msg::eprompt","Msg::eprompt_with_default"])
p("C17","Comparing, ordering and hashing messages agree with their text",
 "Two messages are equal exactly when their texts are equal, no matter how the text is divided into parts; ordering is the ordering of the texts; equal messages hash equally and exactly as their text does when it is borrowed as a key; and comparison with any string or byte-slice type, on either side, agrees with comparing the text. Conversion to string or bytes, length and emptiness all report that same text.",
 ["inputs"],"every pair of messages and every text",
 "Tests compare few values; map lookups by text rely on hash, equality and borrowing agreeing for all of them.",
 [M],"Hand-written trait impls that must all look at the text and not at the offset table.",functions=["PartialEq/Eq/Ord/Hash/Borrow/AsRef for Msg","Msg::as_str","Msg::as_bytes","Msg::into_string","Msg::into_bytes","Msg::len","Msg::is_empty"])
p("C18","All 256 colours map to the right code and escape sequence",
 "Each of the 256 colour numbers converts to the colour with that number, compares equal to it and converts back; its escape sequence is ESC[3Nm for 0 to 7, ESC[9(N-8)m for 8 to 15 and ESC[38;5;Nm from 16 up, and displaying it prints that sequence; distinct colours have distinct sequences.",
 ["inputs"],"all 256 colour numbers",
 "Existing tests look at single colours; the tables are generated and a swapped entry affects one number only.",
 [A,"fyi_msg/build.rs","fyi_ansi/src/lib.rs"],"Generated 256-way match tables on top of macro-generated constants.",functions=["AnsiColor::from_u8","AnsiColor::as_str","From<u8>","PartialEq<u8>","Display"])
p("C19","Pushed messages reach the terminal intact and exactly once",
 "Pushing a message while progress is running clears the old frame, writes the message's text with exactly one line-break part, and then draws the frame again below it (if it can be drawn at all); pushing while it is not running writes just the message. The message's bytes are never changed, repeated or dropped, whatever its text, and the counters, title and tasks are unaffected.",
 ["inputs","histories"],"every message and every progress state",
 "No test captures the terminal output.",
 [G],"Clear, write, and a forced redraw in sequence.",functions=["ProglessInner::push_msg","ProglessInner::tick"])
p("C20","The style macros expand to the right escape sequence",
 "Every list of style, colour and reset keywords given to the style macros (as long as the compiler's recursion limit admits) expands to one escape sequence with exactly the corresponding codes in the given order, and the text-wrapping macros put their text between that sequence and a full reset.",
 ["programs"],"every macro invocation a program can contain",
 "Doctests show a handful of invocations; the keyword table is generated and combinations are unbounded.",
 ["fyi_ansi/src/lib.rs","fyi_ansi/build.rs"],"Recursive macro_rules over a generated keyword table.",functions=["csi_code","ansi_merge","csi","ansi","blink","bold","dim","italic","strike","underline"])
p("C21","Finishing or dropping progress always ends its ticker",
 "Once finish returns or the last handle is dropped the background ticker has ended (or was told to and draws nothing more), unless another thread reset the progress meanwhile; and a ticker whose progress completes ends by itself. After a reset exactly one ticker is drawing, and there is never more than one, however often and from wherever progress is reset or finished. None of these calls panics or waits forever, whatever other threads are doing (short of holding on to standard error).",
 ["schedules","histories"],"every interleaving of the ticker with any callers",
 "The tests never wait for ticker threads in adversarial schedules.",
 ["fyi_msg/src/progress/steady.rs",G],"A condition variable, a shared dead flag and a join.",
 functions=["spawn_ticker","ProglessSteady::default","ProglessSteady::from","ProglessSteady::start","ProglessSteady::stop","Progless::finish","Progless::reset","Progless::try_reset"])
p("C22","Interrupt and resize signals are honoured without corrupting the display",
 "With signal support compiled in, the first interrupt sets the shared switch for good and leaves the cursor visible, whatever the program is doing when it comes in (other than dying while a ticker is just being started), without a panic or a deadlock; only the default mode on every interrupt, and the two-strike mode from the second one on, end the process (with status 1), and the mode that was asked for first stays, every later request returning its switch. A ticker whose progress is running sets the early-shutdown warning as the title at the first tick after an interrupt, once. After a resize its next tick asks for the size anew, and everything is drawn for the size known last.",
 ["schedules","configurations"],"every signal arrival point, mode and number of interrupts",
 "Signals arrive asynchronously; no test raises one.",
 ["fyi_msg/src/progress/signals.rs","fyi_msg/src/progress/steady.rs",G],"Signal handlers registered through an external crate, one atomic switch, and per-tick polling.",
 functions=["sigint_default","sigint_two_strike","sigint_keepalive","ProglessSignals::default","ProglessSignals::pretick","ResizeHandler::new","spawn_ticker","ProglessInner::sigint","ProglessInner::tick_resize"])
p("C23","Ending progress clears the screen for good",
 "However progress ends (finished, set to its total, or counted up to it) and whatever other threads tick, push, add, remove, count or retitle at that moment, its frame is cleared from the screen and nothing is drawn again, by the ticker or along with a pushed message, until progress is reset. While progress is not running and nobody is writing, no frame is left on the screen, and no message is printed on top of one.",
 ["schedules","histories"],"every interleaving of ending progress with ticks and calls from any threads",
 "Tests never capture the terminal, let alone while several threads write to it.",
 [G],"Stopping, clearing and drawing are separate steps under the standard error lock.",
 functions=["ProglessInner::stop","ProglessInner::tick","ProglessInner::push_msg","ProglessInner::set_done","ProglessInner::increment_n","ProglessInner::reset"])
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
    import re
    n=len(re.findall(r"[.!?](?=\s|$)",q["statement"].replace("N bytes, P%.)","").replace("No savings.)","")))
    assert n<=3,(q["id"],n)
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(here,"properties.jsonl"),"w").write("".join(json.dumps(q,ensure_ascii=False)+"\n" for q in P))
print(len(P))
