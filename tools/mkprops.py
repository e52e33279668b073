#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})
R, U, D, S, I = ("src/bibleref/ref.py", "src/bibleref/util.py", "src/bibleref/data.py", "src/bibleref/parser.py",
                 "src/bibleref/__init__.py")

p("C01", "What a string parses to does not depend on what was parsed before",
  "Parsing a reference string yields ranges, groups or an error that depend only on the string, the flags in effect and "
  "the configuration in effect. It never depends on which strings were parsed earlier in the process, in whatever order, "
  "with whatever flags, and whether those parses succeeded, were rejected, or were cut short by an exception at an "
  "arbitrary point. In particular a string that begins without a book name is rejected, whatever came before it.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of parses (lists, ranges, verses), every mix of flags and separators between them, every point at "
  "which a parse may be cut short",
  "Each test parses a handful of self-contained strings that start with a book; no test looks at the second of two "
  "related parses, nor at a parse after an aborted one.",
  [S, R], [("parse state created for one parse only", S), ("grammar object rebuilt when separators change", S)],
  [("current book / chapter / verse level", "context that gives bare numbers their meaning inside one string", S)],
  ["BibleRangeList(str)", "BibleRange(str)", "BibleVerse(str)"])
p("C02", "Parses running at the same time do not affect one another",
  "When several threads parse strings at the same time, or a parse is re-entered from a signal handler while another is "
  "under way, every one of them returns exactly the ranges, groups or error it would have returned running alone with its "
  "own string and flags. This includes the very first parses of a process, before anything has been set up, and parses "
  "that fail or are cut short while others continue.",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving of the threads at statement and bytecode boundaries, every point of re-entry or interruption",
  "The tests are single-threaded: no schedule other than the sequential one is ever run.",
  [S, R], [("no parse state shared between calls", S), ("lazy one-time construction of the grammar object", S)],
  [("lazily created grammar object", "shared by all parses of the process", S)],
  ["BibleRangeList(str)", "BibleRange(str)", "BibleVerse(str)"])
p("C03", "A separator change takes effect everywhere, or not at all",
  "After a separator is changed to a punctuation character not used for another separator, all later parsing and "
  "formatting use the new character, and the text produced for a list parses back to an equal list. A change that raises, "
  "because the value is unusable or because it is interrupted part-way, leaves reading the settings, parsing and formatting as they were before or as fully "
  "changed, never a mixture. After any threads that change separators concurrently, or race with the first parse, have "
  "finished, parsing and formatting agree with the settings that can be read back.",
  ["configurations", "histories", "schedules", "fault_sequences"],
  "every sequence of separator changes, valid and unusable values, interruption points, and interleavings of concurrent "
  "changes with parses",
  "One test sets five valid separators once, sequentially, and parses one string.",
  [D, S], [("rebuild of the grammar on every change", D), ("grammar built from the current settings", S)],
  [("five separator characters", "used by the formatter", D), ("grammar object", "used by the parser", S)],
  ["bible_data().range_sep and the four other separators", "str()", "BibleRangeList(str)"])
p("C04", "A Bible-data change takes full effect, or none, and can be undone",
  "After the book order, the book names, the chapter/verse counts or the verse-0 chapters are changed, every later query "
  "(name lookup, comparison, next and previous book, bounds, counts, verse arithmetic, validity, splitting, iteration, "
  "sorting, set operations, parsing and formatting) answers from the new data, and setting the previous data back restores "
  "exactly the previous answers. A change rejected with an exception leaves all answers as they were.",
  ["configurations", "histories", "fault_sequences"],
  "every sequence of data changes, including rejected ones, interleaved with queries of every kind",
  "No test changes the book data at all, so nothing stale can show.",
  [D, R], [("setters push the data onto the books", D), ("queries read the books' current data", R)],
  [("per-book order, names, verse counts", "what every query consults", D)],
  ["bible_data().book_order / name_data / max_verses / verse_0s", "all public queries"])
p("C05", "Per-call flags replace the package-wide flags for that call only",
  "A call that is given flags behaves, in result and in error, exactly as the same call without flags would behave if the "
  "package-wide flags had that value, whatever the package-wide flags are at the time; this includes passing the empty "
  "flag set. No call ever changes the package-wide flags, and flags given to one call never influence another call, "
  "earlier, later, nested or concurrent.",
  ["histories", "configurations", "schedules"],
  "every public method taking flags, every pair of call flags and package-wide flags, every history of flag changes and "
  "calls, every interleaving of calls with different flags",
  "The tests pass flags while the package-wide flags are at their default, and never combine the two settings or run "
  "calls with different flags at the same time.",
  [R, S, I], [("flags argument resolved against the package attribute and handed down", R)],
  [("package-wide flags", "default for calls without flags", I)],
  ["every method with a flags argument", "bibleref.flags"])
p("C06", "A grouped list always equals a plain list of groups under any edits",
  "After any sequence of appends, prepends, insertions, group insertions, deletions, assignments, extensions, sorting, "
  "reversing, clearing, copying (also shallow and deep copies by Python's copy module) and edits through its groups, a grouped list (and a range list) shows the same items and "
  "the same groups as a plain list of lists to which the same edits were applied, through every way of looking at it: "
  "length, forward and backward iteration, indexing, searching, counting, comparison and the groups. Every item belongs to "
  "exactly one non-empty group.",
  ["histories", "inputs"],
  "every sequence of list and group operations, including operations that are refused",
  "Each test applies one or two operations to a fresh list; linked-structure damage appears only after particular "
  "sequences.",
  [U, R], [("linked nodes with group-head links", U)],
  [("node and group-head links, counts", "must stay mutually consistent", U)],
  ["GroupedList and BibleRangeList list interface", "groups", "to_nested_lists()"])
p("C07", "A group view shows its live group or refuses, and never harms others",
  "A view of a group, kept while the list is edited in any way by anyone, shows and edits exactly the items currently in "
  "the group as long as that group still begins with the item the view was opened on, and raises the documented view error "
  "once it does not (after sorting, reversing, regrouping or replacing the first item it may do either). It never shows or "
  "changes items of another group or list, and using a view of a removed group never alters the list.",
  ["histories", "schedules"],
  "every interleaving of view reads, view edits and list edits over lists, copies and several views",
  "One test deletes group heads in one order with two views open.",
  [U], [("validity check against the head node", U)],
  [("head node of the view", "identifies the group", U)],
  ["groups[i]", "GroupView indexing, iteration, length, assignment, deletion"])
p("C08", "Set updates on lists equal verse-set algebra over any history",
  "Starting from any lists and ranges, after any sequence of union, intersection, difference and symmetric difference, as "
  "methods or operators, in place or not, with a verse, a range, another list or the list itself as operand, each list "
  "covers exactly the verses that set algebra gives, and membership, disjointness and the enclosing range agree with it. "
  "Results are consolidated: sorted, with no two ranges overlapping or mergeable under the flags in effect, and no range "
  "spanning books unless the flags allow it or a range of an operand did. An in-place form leaves in the same list object "
  "exactly the ranges and groups that the other form returns.",
  ["histories", "inputs", "configurations"],
  "every history of set operations whose operands are results of earlier operations, under each flag setting, default and "
  "replaced Bible data",
  "Tests apply one operation to two hand-written lists that avoid book ends, full containment and self operands.",
  [R], [("interval algebra on ranges", R), ("sort and merge", R)],
  [("ranges in the list", "evolving verse set", R)],
  ["| & - ^ and in-place forms", "union/intersection/difference/sym_difference[_update]", "in", "is_disjoint", "merge"])
p("C09", "A list operation that fails loses, corrupts or half-applies nothing",
  "When a list operation raises, because an operand is of the wrong kind, an index is out of range, a source of items "
  "fails part-way, items cannot be ordered, or a result is not allowed by the flags, the list is intact: it holds the items "
  "and groups it had before. The only exception is a bulk addition, which may keep a leading part of the items delivered "
  "before the failure, correctly grouped. Every later operation on the list works normally.",
  ["fault_sequences", "histories"],
  "every operation, every position at which the operand or an ordering fails, at every point of a history",
  "No test makes an operation fail half-way and then looks at the list.",
  [U, R], [("type and index checks before linking", U), ("updates computed aside, then installed", R)],
  [("linked nodes mid-operation", "exposed when an exception escapes", U)],
  ["all mutators of GroupedList and BibleRangeList"])
p("C10", "Read-only operations leave their operands alone, also when shared",
  "Queries, comparisons, conversions to text, copies and set operations that return a new list never change the lists, "
  "ranges or verses they are given, and nothing done later to a returned list shows in them or the reverse. Any number of "
  "threads may run such operations on the same objects at the same time, some cut short by exceptions at arbitrary points, "
  "and each gets the answer it would get alone.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of read-only operations on shared operands, every interruption point, every later edit",
  "Tests check results, not operands afterwards, and run one thread.",
  [R, U], [("copy before consolidating", R), ("immutable verses and ranges", R)],
  [("operand lists", "shared between callers", R)],
  ["contains/union/intersection/difference/sym_difference/str/counts/split/range/copy"])
p("C11", "Text produced for a list reads back as that list, in any configuration",
  "Whatever sequence of edits, set operations, flag changes, separator changes and data changes led to a non-empty list, "
  "the text produced for it with its groups preserved (full or abbreviated names, either verse separator, with or without spaces, "
  "with or without explicit start verses) parses, under the same configuration and flags, to a list equal in ranges and "
  "groups. (The flags have to allow its ranges across books and verse 0s, if any.)",
  ["histories", "configurations", "inputs"],
  "every reachable list, every formatting option, every configuration reached by a history of changes",
  "Round trip is tested for one two-verse range per book in the default configuration.",
  [R, S, D], [("formatter tracks the same context as the parser", R), ("parser context rules", S)],
  [("formatter context", "which parts of a reference may be left out", R)],
  ["str(list)", "list.str(...)", "BibleRangeList(str)"])
p("C12", "Operations finish, whatever the list size, aliasing or stack left",
  "Every operation on finite lists completes in an amount of work bounded by a fixed polynomial of their sizes: also when "
  "a list is its own operand, when a group boundary is set where one exists already, when a list holds thousands of ranges "
  "in any order, and when the caller is already deep in the call stack, as long as there is room for ordinary calls. Once a "
  "disturbance (a failed or interrupted read-only call) is over, the next operation completes normally.",
  ["histories", "inputs", "fault_sequences"],
  "every operation and operand aliasing, list sizes to thousands, every remaining stack depth above a fixed reserve",
  "Tests use lists of about ten items, distinct operands and an empty stack.",
  [U, R], [("iteration over a list while it grows", U), ("recursive merge sort", U)],
  [("remaining stack", "resource consumed by sorting", U)],
  ["extend/append_group/+=/|= with self", "sort/merge/set operations on long lists", "insert_group_at"])
p("C13", "Iterating a list stays sound while the list is edited between steps",
  "An iteration over a list (forward or backward) or over one of its groups, suspended and resumed while others append, "
  "insert, delete or assign items, delivers every item that stays in the list (or group) throughout exactly once and in "
  "list order. Anything else it delivers was in the list (or group) at some moment of the iteration, and it ends once the "
  "edits stop. (Nothing is said of a group iteration once the group's first item or the item it stands on has left the group.)",
  ["schedules", "histories"],
  "every interleaving of iteration steps of several iterators with list edits",
  "No test edits a list while iterating over it.",
  [U], [("nodes keep their links when removed", U)],
  [("suspended iterator position", "may be on a removed item", U)],
  ["iter(list)", "reversed(list)"])
p("C14", "A suspended verse iteration is unaffected by what happens meanwhile",
  "Iterating over a range yields each verse of the range exactly once, in order, from start to end, with verse-0 verses "
  "included exactly when the flags in effect when iteration began (or the range's own ends) call for them; the number "
  "yielded equals the range's verse count under those flags. Flag changes, parses, formatting, other iterations and failed "
  "calls made by others between two steps never add, drop, repeat or reorder a verse.",
  ["schedules", "histories", "configurations"],
  "every interleaving of steps of several verse iterations with flag changes and other calls, every range",
  "Three short ranges are iterated in one go under default flags.",
  [R], [("stepping verse by verse", R)],
  [("suspended iteration", "holds the current verse", R), ("package-wide flags", "may change between steps", I)],
  ["iter(BibleRange)", "verse_count()"])
# Functions of data, flags and arguments, whatever the history
ANY = ("Whatever has happened in the process before or is happening at the same time (data and flags changed and changed back, "
       "changes rejected, other calls made, failed, cut short at an arbitrary point, re-entered in the middle of others, or running "
       "in other threads), ")
HIST = dict(over=["histories", "configurations", "schedules", "fault_sequences", "inputs"],
            text="every history of data changes, flag changes, rejected changes, other calls, interruptions and re-entries, every interleaving of threads that ask, every argument")
WHY = "The tests ask a few questions each in a fresh, unchanged process, one after another; answers remembered from other data, other flags or another thread cannot show."
p("C15", "A book name finds its one book, whatever happened before",
  ANY + "every title, listed alternative and every beginning of a title not shorter than its stated minimum finds exactly the "
  "book it belongs to under the names set last: in any letter case, with spaces around it, with one, several or no spaces "
  "between its words, and with a leading number also as a Roman numeral; on its own, in place of a book when a verse or range "
  "is made, and in front of a chapter in a reference string. A string that is none of these finds no book and makes no verse.",
  HIST["over"], HIST["text"], WHY, [R, D, S], [("patterns made from the names", D), ("lookup", R)],
  [("patterns of the names set last", "what lookups search", D)], ["BibleBook.from_str", "BibleVerse(name, ...)", "BibleRange(name, ...)", "BibleRangeList(str)"])
p("C16", "Verse arithmetic steps along the verse order, whatever happened before",
  ANY + "adding n to a verse gives the verse n places later in the order of verses under the data and flags in effect, and "
  "subtracting n the one n places earlier (verse 0s counting exactly if the flags, or a starting verse 0, call for them), or None "
  "if that lies outside the book, or outside the Bible with MULTIBOOK. The difference of two verses is the signed number of "
  "places between them; for different books without MULTIBOOK it raises the documented error.",
  HIST["over"], HIST["text"], WHY, [R, D], [("chapter by chapter carry", R), ("neighbouring books", R)],
  [("book order and verse counts", "what steps follow", D)], ["BibleVerse.add, subtract, + and -"])
p("C17", "Splitting a range partitions it at the right boundaries, whatever happened",
  ANY + "the pieces of a split by books, chapters and/or a number of verses follow one another and together are exactly the "
  "range; each ends at the next requested boundary of the data in effect or after the requested number of verses, counted under the "
  "flags in effect (with verse 0s also if an end of the range is one), and nowhere else; they form one group, or the groups that regrouping under these flags gives, as asked. A book's chapter ranges and a range's own iteration agree with the same boundaries.",
  HIST["over"], HIST["text"], WHY, [R, D], [("successive splitting", R)], [("verse counts", "what places the boundaries", D)],
  ["BibleRange.split", "BibleBook.chap_ranges", "iteration"])
p("C18", "Only existing verses and well-formed ranges are made, whatever happened",
  ANY + "a verse can be made exactly if the data and flags in effect have that chapter and verse, and otherwise raises the "
  "documented error. A range made from books, chapters and verses or from two verses starts and ends exactly where its parts say "
  "(missing parts filled in to the whole book or chapter, ends given in the wrong order exchanged), never at a verse that does "
  "not exist, and spans books only if the flags allow it.",
  HIST["over"], HIST["text"], WHY, [R, D], [("constructor validation", R)], [("verse counts and flags", "what exists", D)],
  ["BibleVerse(...)", "BibleRange(...)"])
p("C19", "Books, verses and ranges are ordered by position, whatever happened",
  ANY + "all comparison operators on books, on verses and on ranges, and with them sorting, smallest and largest, agree with the "
  "place in the book order in effect, then chapter and verse (ranges: start, then end); equality and hashing agree with them, also "
  "for objects made while another order was in effect.",
  HIST["over"], HIST["text"], WHY, [R, D, U], [("comparison of books by current order", R), ("sorting of lists", U)],
  [("book order", "what comparisons follow", D)], ["< <= == != >= >", "hash", "sorted()", "BibleRangeList.sort"])
p("C20", "Counts, bounds and relations agree with the verses, whatever happened",
  ANY + "the numbers of verses, chapters and books (all or whole ones) of books, ranges and lists, their first and last verses and "
  "chapters, neighbouring books, enclosing chapter and book ranges, the tests for single verses and whole or spanned chapters and books, and the tests for "
  "overlap, containment, adjacency and surrounding are those of the verses that the data and flags in effect give them (lists count their ranges one by one); chapters that do not exist raise the "
  "documented error.",
  HIST["over"], HIST["text"], WHY, [R, D], [("counting by splitting", R), ("bounds from the data", R)], [("verse counts", "what is counted", D)],
  ["verse_count, chap_count, book_count", "first_verse, last_verse, chap_range, book_range", "is_whole_*, spans_*", "is_disjoint, contains, surrounds, is_adjacent"])
p("C21", "A reference string reads as what it says, whatever happened before",
  ANY + "a reference string (books, chapters, chapter and verse with either verse separator, bare numbers, ranges of these, joined by "
  "the major or minor list separator, with or without spaces) gives exactly the ranges and groups it spells out under the data, "
  "separators and flags in effect: a bare number is a verse after a verse reference or in a book of one chapter, otherwise a "
  "chapter, and a chapter again after a major separator; book and chapter carry on from the reference before; a range goes from the "
  "start of its first to the end of its second part. A string naming something that does not exist, or not allowed by the flags, or starting without a book, "
  "raises a parsing error; one verse or one range is accepted as a verse or range, anything else is not.",
  HIST["over"], HIST["text"], WHY, [S, R, D], [("grammar and transformer", S)], [("current book, chapter and level", "meaning of bare numbers inside one string", S)],
  ["BibleRangeList(str)", "BibleRange(str)", "BibleVerse(str)"])
p("C22", "A parse error points at the part that cannot be read, whatever happened",
  ANY + "a string that is rejected as a list, range or verse raises a parsing error whose positions delimit, from its first to the end of its last "
  "character, the first reference in it that does not exist or is not allowed by the data and flags in effect (for a range of two existing parts that "
  "is not allowed, both parts together), or the first book name that is none; or, where the string stops making sense, the first character "
  "that cannot follow what comes before it; or the end of the string, if it breaks off.",
  HIST["over"], HIST["text"], WHY, [S, R], [("error positions from grammar, tokens and subtrees", S)],
  [("error of one parse", "must not come from another", S)], observe=["BibleRefParsingError.start_pos, end_pos"])
p("C23", "Formatting options change the spelling and nothing else, whatever happened",
  ANY + "the text of a verse, range or list uses the titles, separators and data in effect. The option for abbreviations puts each book's "
  "abbreviation in the place of its title, the option for the alternative verse separator puts that in the place of the standard one, and the option "
  "for no spaces leaves the spaces out; nothing else changes, for any combination. Explicit start verses appear exactly where asked for. With groups "
  "preserved, major separators stand exactly between the groups and minor ones exactly within them. A single verse is never written as a range with "
  "start and end, nor is a whole book or chapter, except a whole chapter within a group of verses. Regrouping changes no range, and gives the "
  "groups that the text without preserved groups spells out.",
  HIST["over"], HIST["text"], WHY, [R, D], [("text of verses, ranges and lists", R), ("natural grouping", R)],
  [("names and separators", "what texts are made of", D)], ["BibleVerse.str", "BibleRange.str", "BibleRangeList.str", "BibleRangeList.regroup"])
p("C24", "Set algebra between references is exact, whatever happened",
  ANY + "the union, intersection, difference and symmetric difference of a range or list with a verse, range or list, by method, operator or in-place "
  "update, and the merging of a list, give exactly the verses that set algebra gives for the verses of the operands, as a sorted list of the "
  "longest possible ranges (ranges that end with their book, if ranges across books are neither allowed by the flags in effect nor among the operands); "
  "and the tests whether a list contains or is disjoint with another reference agree with this.",
  HIST["over"], HIST["text"], WHY, [R], [("interval algebra on ranges", R), ("sort and merge", R)], [("operands", "verses, ranges and lists made earlier, also under other data", R)],
  ["union/intersection/difference/sym_difference[_update]", "| & - ^", "merge", "contains, is_disjoint, in"])
p("C25", "Verse-0 conversions and copies change nothing else, whatever happened",
  ANY + "taking verse 0 for verse 1 gives the same reference with verse 1 in the place of each verse 0 among its ends, and taking verse 1 for verse 0 gives "
  "the same reference with verse 0 in the place of each verse 1 whose chapter has a verse 0 in the data in effect, whatever the flags. "
  "A verse or range itself stays as it is; a list is changed in place, with the same order and groups, and nothing is shared with other lists. "
  "A verse, range or list made from another one equals it, groups included.",
  HIST["over"], HIST["text"], WHY, [R], [("conversion of both ends", R), ("copying constructors", R)], [("verse 0s", "chapters with a verse 0", D)],
  ["verse_0_to_1, verse_1_to_0 of verses, ranges, lists", "BibleVerse(verse), BibleRange(range), BibleRangeList(list)"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
