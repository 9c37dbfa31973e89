"""What is built and run for each property, and how its cases are described."""


def F(*features, **kw):
    return dict(features=list(features), **kw)


NONE = F()
ALLOC = F("alloc")
STD = F("std")
SC = F("supports-color")
ALLOC_SC = F("alloc", "supports-color")
STD_SC = F("std", "supports-color")
STRIP = F("strip-colors")
ALLOC_STRIP = F("alloc", "strip-colors")
STD_STRIP = F("std", "strip-colors")
SC_STRIP = F("supports-color", "strip-colors")
STD_SC_STRIP = F("std", "supports-color", "strip-colors")

ALLOC_SC_STRIP = F("alloc", "supports-color", "strip-colors")
LIVE = [NONE, ALLOC, STD, SC, ALLOC_SC, STD_SC]
STRIPPED = [STRIP, ALLOC_STRIP, STD_STRIP, SC_STRIP, ALLOC_SC_STRIP, STD_SC_STRIP]

TWO = dict(configs=[NONE, STD_SC], more=[STD, STD_SC_STRIP])
FOUR = dict(configs=[NONE, STD, STD_SC, STD_SC_STRIP], more=[ALLOC, SC, STRIP, STD_STRIP])

PLAN = {
    "C01": dict(FOUR, bins=["render"], level="exploration",
                rule="proptest: styles (compile-time and runtime types) x values of 15 kinds, alone and in containers, x 9 formatting traits x "
                     "format specifications x streams x modes; non-trivial when the style prints something or the "
                     "specification is not plain"),
    "C02": dict(TWO, bins=["render"], level="exploration",
                rule="all 8192 effect sets and all compile-time colors exhaustively, plus proptest over styles x "
                     "prior terminal states; non-trivial when the style is not plain"),
    "C03": dict(TWO, bins=["render"], level="exploration",
                rule="all 8192 effect sets and all compile-time colors exhaustively, plus proptest over styles x "
                     "prior terminal states; non-trivial when the style is not plain"),
    "C04": dict(TWO, bins=["render"], level="exploration",
                rule="proptest over compile-time styles x representations x terminal states; non-trivial when the "
                     "style is not plain"),
    "C15": dict(TWO, bins=["render"], level="fault_enumeration",
                rule="for each generated styled value every failing write and every byte budget of the sink is tried, "
                     "and failures inside the value; non-trivial when at least one failure point falls in an escape "
                     "sequence"),
    "C16": dict(FOUR, bins=["render"], level="exploration",
                rule="proptest over styles x changes of mode and default stream injected at each point of the value's "
                     "own formatting, from the same thread, a nested value or another thread; non-trivial when a "
                     "change flips the decision"),
    "C17": dict(FOUR, bins=["render"], level="exploration",
                rule="proptest over styles, values, strings and histories under a counting global allocator; "
                     "non-trivial when the operation printed or parsed something"),
    "C19": dict(FOUR, bins=["render"], level="exploration",
                rule="proptest over stacks of styled layers with per-layer streams x mode x default stream x "
                     "specification; non-trivial with at least two layers of which one is colored"),
    "C20": dict(FOUR, bins=["render"], level="exploration",
                rule="proptest over styles x traits x specifications x histories of settings, and a corpus whose "
                     "outputs are compared between feature sets; non-trivial when the style is not plain and there is "
                     "a specification or a history"),
    "C09": dict(TWO, bins=["tables"], level="exploration",
                rule="all ASCII strings of up to 3 characters, all 16.7 million #rrggbb (a case of all_hex is 256 of "
                     "them), all strings at edit distance 1 of a color name, plus proptest over edited and arbitrary "
                     "strings; non-trivial when accepted, or rejected for overflow or a bad digit, or of a length or "
                     "start that accepted strings have"),
    "C10": dict(TWO, bins=["tables"], level="exploration",
                rule="all byte strings of up to 2 bytes, all at edit distance 1 of a name, all two-bit flips, all "
                     "two-byte paddings, all single-byte substitutions in every case pattern, plus proptest; "
                     "non-trivial when accepted or of length 4..=8"),
    "C11": dict(TWO, bins=["tables"], level="exploration",
                rule="every compile-time color (ANSI, xterm, CSS, about 800 RGB types generated from the seed), every "
                     "runtime color (a case of all_rgb is 256 RGB values x 12 codes), plus proptest over colors x "
                     "format options; non-trivial: all, and with format options when they are not plain"),
    "C12": dict(TWO, bins=["tables"], level="exploration",
                rule="every compile-time color by every conversion, every runtime color, every code; a case of "
                     "all_rgb is 256 values; all non-trivial"),
    "C13": dict(TWO, bins=["tables"], level="exploration",
                rule="all 8192 collections, plus proptest over pairs of operation histories; non-trivial when there "
                     "is more than one operation and not both collections end empty"),
    "C14": dict(TWO, bins=["tables"], level="exploration",
                rule="proptest over sequences of builder calls and over shorthands on bare and styled values; "
                     "non-trivial when a sequence has two calls or more and changes something"),
    "C05": dict(configs=LIVE + STRIPPED, bins=["modes"], worker=True, level="exploration",
                rule="every mode x default stream x stream x form of query after every other mode and default, plus "
                     "proptest histories of settings, queries, rewirings and environment changes, each history in a "
                     "fresh process; non-trivial when a query follows a setting"),
    "C06": dict(configs=[STD, SC, ALLOC_SC, STD_SC], bins=["modes"], worker=True, level="exploration",
                rule="25 wirings of stdout and stderr to terminal/pipe/file/null/closed x terminal environments x "
                     "stream x color kinds x form of query, plus proptest histories during which wiring and "
                     "environment change, each in a fresh process; non-trivial when detection decides"),
    "C07": dict(configs=[STD, SC, ALLOC_SC, STD_SC, STD_STRIP, SC_STRIP, ALLOC_SC_STRIP, STD_SC_STRIP],
                bins=["modes"], worker=True, level="exploration",
                offers=["let _: fn() -> Option<colorz::mode::Mode> = colorz::mode::Mode::from_env;",
                        "let _: fn() = colorz::mode::set_coloring_mode_from_env;"],
                rule="every assignment of unset/0/empty/1 to the four variables x prior mode, plus proptest histories "
                     "with other values (also not UTF-8) and misspelt names, each in a fresh process; non-trivial when "
                     "one of the variables is set and asked for"),
    "C08": dict(configs=STRIPPED, bins=["modes"], worker=True, level="exploration",
                rule="1500 styles x all modes and streams, plus proptest histories of settings, queries and "
                     "environment changes, each in a fresh process; non-trivial when the value would be colored "
                     "without the feature, or sequences are written directly"),
    "C18": dict(configs=[NONE, STD, SC, STD_SC], more=[ALLOC, ALLOC_SC, STRIP, STD_SC_STRIP], bins=["modes"],
                worker=True, level="exploration",
                rule="two-thread programs interrupted after each instruction of the first operation, plus proptest "
                     "programs of 2-4 threads under generated instruction-granular schedules or running freely, each "
                     "in a fresh process, judged against all sequential orders; non-trivial when operations of "
                     "different threads overlap",
                assumptions=["interleavings are of x86-64 instructions on real threads; reorderings that only "
                             "weaker memory models allow are not explored"]),
    "C21": dict(TWO, bins=["tables"], level="exploration",
                rule="all pairs of the small types' values, all 8192 collections against their 13 neighbours, plus "
                     "proptest over groups of styles and colors that differ in at most one respect, each made in "
                     "one of several ways, histories of hash maps keyed by styles, and clones; non-trivial with more "
                     "than one value (few, near_sets, sets, colors, styles), more than one key and two steps (maps), or a style "
                     "that is not plain (clones)"),
    "C22": dict(configs=[NONE, STD, SC, STD_SC, STD_SC_STRIP], more=[ALLOC, ALLOC_SC, STRIP, STD_STRIP, SC_STRIP],
                bins=["modes"], worker=True, level="exploration",
                rule="proptest histories of settings, readings and queries in generated situations, with and without "
                     "up to 10 (or hundreds of equal) inserted calls that may fail or panic, each in a fresh process; "
                     "non-trivial when something was inserted and something was read"),
    "C23": dict(configs=[NONE, STD, SC, STD_SC, STD_SC_STRIP], more=[ALLOC, ALLOC_SC, STRIP, STD_STRIP, SC_STRIP],
                bins=["modes"], worker=True, level="exploration",
                rule="16 calls from 21 places, first thing and after having been made before, plus proptest histories "
                     "whose calls are made from generated places, each compared with the same history made plainly "
                     "and with the model, each in a fresh process; non-trivial when a call is made from somewhere else "
                     "and something is read"),
}

# these also get a coverage-guided search, in this feature set
for _p in ("C01", "C02", "C03", "C04", "C09", "C10", "C14", "C15", "C16", "C17", "C19", "C20", "C21"):
    PLAN[_p]["guided"] = STD_SC
