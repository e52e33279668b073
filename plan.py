"""Run counts and wall-clock caps per property and tier, and what the evidence files say about each check."""
REAL = ["bibleref.ref", "bibleref.parser", "bibleref.data", "bibleref.util", "bibleref.__init__", "lark (grammar construction, Earley parser, transformer)"]
NO_STUB = ["none; threading locks, if the package creates any, are the simulator's cooperative locks"]
COMMON = ["seeded sampling of schedules, faults and inputs: a clean batch is evidence, not proof",
          "yield points are the lines (in some runs the bytecodes) of bibleref and the methods of lark.Lark; code inside Lark's other modules, re and the interpreter's C code runs without switches or faults"]
TIERS, INFO = {}, {}


def p(pid, quick, thorough, rule, states, stub=NO_STUB, extra=()):
    TIERS[pid] = {"quick": quick, "thorough": thorough}
    INFO[pid] = dict(rule=rule, real=REAL, stub=stub, assumptions=COMMON + list(extra), states=states)


p("C01", (1100, 200), (72000, 3000),
  "event-log digests of runs in which at least two parses were judged after a flag change, configuration change, cut-short or re-entrant parse",
  "distinct windows of four consecutive history events (call kind, flags, outcome class, fault position), per worker, added up")
p("C02", (2000, 200), (80000, 3000),
  "event-log digests of runs in which at least one thread switch or re-entrant parse happened inside a parse",
  "distinct (function switched from, thread switched to) pairs plus distinct switch sequences, per worker, added up")
p("C03", (1600, 200), (64000, 3000),
  "event-log digests of runs in which a separator was really changed, or a thread switch happened among threads changing separators",
  "distinct separator settings probed, distinct switch sites and switch sequences, per worker, added up")
p("C05", (3000, 200), (120000, 3000),
  "event-log digests of runs with at least one judged call whose flags differ from the package-wide flags, or with a thread switch inside a flagged call",
  "distinct (call kind, call flags, package flags, outcome class) and switch sequences, per worker, added up")
p("C04", (500, 200), (28000, 3000),
  "event-log digests of runs in which at least one part of the data was really replaced and queries were judged afterwards",
  "distinct (combination of data in effect, query kind), per worker, added up",
  stub=["rejecting data sources (sequences and mappings that fail at a chosen access) stand in for the caller's data; everything else is real"])
p("C06", (8000, 200), (320000, 3000),
  "event-log digests (operations and resulting group sizes) of runs with at least two effective edits",
  "distinct (operation, resulting group sizes) pairs, per worker, added up",
  stub=["item sources (generators, tuples, other lists) stand in for callers' iterables; everything else is real"])
p("C07", (14000, 200), (560000, 3000),
  "event-log digests of runs in which a kept view was used after it was opened",
  "distinct (operation, what a view answered afterwards) pairs, per worker, added up",
  extra=["after sorting, reversing, regrouping, clearing the groups or assigning to the first item, a view may either keep showing the group or be refused"])
p("C13", (22000, 200), (880000, 3000),
  "event-log digests of runs in which a list was edited while an iteration over it was suspended half-way",
  "distinct (operation, progress of the suspended iterators), per worker, added up",
  extra=["edits are those the statement names (append, insert, delete, assign, also in bulk and through groups); sorting, reversing and set updates during an iteration are outside it"])
p("C08", (12000, 200), (480000, 3000),
  "event-log digests of runs in which at least two set operations were judged",
  "distinct (operation, form, flags, relation of the operands as sets), per worker, added up",
  extra=["whether a range across books counts as inside a list of single-book ranges without MULTIBOOK is left open"])
p("C14", (14000, 200), (560000, 3000),
  "event-log digests of runs in which flags were changed or calls made while a verse iteration was suspended half-way",
  "distinct (operation, package flags, progress of the suspended iterators), per worker, added up")
p("C11", (2600, 200), (104000, 3000),
  "event-log digests of runs with at least three round trips of non-empty lists",
  "distinct (formatting options, flags, sequence of separators in the text), per worker, added up",
  extra=["separators are distinct punctuation characters; lists hold ranges across books only if MULTIBOOK and verse 0s only if VERSE_0 is among the flags given to both calls"])
p("C09", (8000, 200), (320000, 3000),
  "event-log digests of runs in which at least one operation failed and the lists were compared with their models afterwards",
  "distinct (operation, variant, exception, resulting group sizes), per worker, added up",
  stub=["failing item sources, items with failing comparisons, operand lists that fail while being read, and Bible data with books missing stand in for callers' data"],
  extra=["operations that do succeed while faults are armed are taken as they are (other checks judge results)"])
p("C10", (4400, 200), (220000, 3000),
  "event-log digests of runs with at least two judged calls on shared operands in a history, or with a thread switch inside a call",
  "distinct (operation, flags, package flags, error or not) and switch sequences, per worker, added up")
p("C12", (4500, 200), (96000, 3000),
  "event-log digests of runs in which at least one operation ran under its step budget",
  "distinct (operation, aliasing, stack left or not, size class, shape of the list), per worker, added up",
  extra=["work is counted in executed lines of the package; budgets are 240000 + 800(n+m+2)^2 lines, and 240000 + 3200(n+2)(m+2)^2 for operations that pair the items of two lists, plus 12000 per chapter that a range crosses, all capped at 100 million",
         "lists to 3000 items (pairwise operations to 60), 150 stack frames left at least"])
for pid, quick in (("C15", 1600), ("C16", 3000), ("C17", 2200), ("C18", 3000), ("C19", 3000), ("C20", 2400), ("C21", 700), ("C22", 700), ("C23", 700), ("C24", 1600), ("C25", 2000)):
    p(pid, (quick, 200), (quick * 40, 3000),
      "event-log digests of runs in which queries were judged after or during at least one disturbance (data or flag change, rejected change, other call, call cut short, re-entry, threads)",
      "distinct (kind of event, package flags, custom data or not, fault fired) and switch sequences, per worker, added up",
      extra=["only data in which every book of the order has names and chapters; names claimed by two books are not asked for"])
