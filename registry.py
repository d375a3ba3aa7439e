"""The runs that decide the properties."""

import re

ASSUMPTIONS = [
    "inputs are bounded as stated per run: the number of list elements in total and per list, the "
    "number of non-null value-record fields, and at most one malformed element per table; the rest "
    "of each input, its position, and the content elsewhere are arbitrary",
    "the intermediate representation of rustc is what is executed: code generation after it, the "
    "solver, and the executor's semantics (validated by replaying sampled models) are trusted",
    "formatting of messages is replaced by an empty string; allocations succeed",
]

# None of the features, all of them, and each of them alone
VARIANTS = ["strict", "lenient", "checksums", "directories", "language", "marks"]

KEYS = {
    "budget": 0,
    "limit": 1,
    "wide": 2,
    "length": 3,
    "flags": 4,
    "wellformed": 5,
    "format": 6,
    "kind": 7,
    "extra": 8,
    "long": 9,
    "memory": 10,
    "times": 11,
    "least": 12,
    "before": 13,
    "rounds": 14,
}


class Run:
    def __init__(self, harness, reach=(1, 2), shards=1, variant="strict", name=None, **parameters):
        self.harness, self.shards, self.variant = harness, shards, variant
        self.parameters = parameters
        self.params = {KEYS[key]: value for key, value in parameters.items()}
        self.reach = reach
        self.name = name or "-".join(
            [harness] + [f"{key}{value}" for key, value in parameters.items()]
            + ([variant] if variant != "strict" else [])
        )

    def prepare(self):
        assert self.reach

    def bounds(self):
        return dict(self.parameters)


def demangle(name):
    """A readable name of a function."""
    match = re.match(r"_ZN(.*)E$", name)
    if not match:
        return name
    rest, parts = match.group(1), []
    while rest and rest[0].isdigit():
        digits = re.match(r"\d+", rest).group(0)
        size = int(digits)
        parts.append(rest[len(digits):len(digits) + size])
        rest = rest[len(digits) + size:]
    if parts and re.match(r"h[0-9a-f]{16}$", parts[-1]):
        parts.pop()
    name = "::".join(parts)
    for key, value in [("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$C$", ","), ("$RF$", "&"),
                       ("$u7b$", "{"), ("$u7d$", "}"), ("..", "::")]:
        name = name.replace(key, value)
    return name


def small(harness, thorough, budget=4, limit=2, flags=3, **rest):
    """Tables with few elements."""
    if thorough:
        budget, limit = budget + 2, limit + 1
    return Run(harness, budget=budget, limit=limit, flags=flags, **rest)


# The lists – by the harness, the type, and the format – whose elements are tables on their own
NARROW = {
    ("chained_context", 0, 1): (1, 3),
    ("chained_context", 0, 2): (1, 6),
    ("context", 0, 1): (1,),
    ("context", 0, 2): (1,),
    ("correction", 0, 1): (1,),
    ("correction", 0, 2): (1,),
    ("correction", 0, 3): (1,),
    ("directory", 0, 0): (1, 2, 7),
    ("lookups", 0, 1): (1,),
    ("palettes_iterate", 0, 0): (1, 2),
    ("positioning", 1, 1): (1,),
    ("positioning", 1, 2): (1, 2),
    ("positioning", 2, 1): (1, 3, 4),
    ("positioning", 2, 2): (1, 2, 3, 4),
    ("positioning", 3, 1): (1,),
    ("positioning", 4, 1): (4, 5),
    ("positioning", 5, 1): (4, 6),
    ("positioning", 6, 1): (4, 5),
    ("scripts", 0, 0): (1,),
}
BROAD = {
    ("context", 0, 1): (3,),
    ("context", 0, 2): (4,),
    ("directory", 0, 0): (5,),
    ("features", 0, 0): (1,),
    ("ligature_carets", 0, 0): (1,),
    ("lookups", 0, 2): (1,),
    ("positioning", 2, 2): (5,),
    ("positioning", 5, 1): (5,),
    ("scripts", 0, 0): (2,),
    ("substitution", 4, 1): (1,),
}
# The lists that take too long with as many elements as there can be, and how many they get
MANY = {
    ("attachments", 0, 0): {1: 20000},
    ("chained_context", 0, 3): {1: 20000, 2: 20000, 3: 20000},
    ("context", 0, 3): {1: 20000},
    ("directory", 0, 0): {5: 5000},
    ("file", 0, 0): {1: 5000},
    ("font_variations", 0, 0): {2: 20000},
    ("ligature_carets", 0, 0): {3: 20000},
    ("mark_sets", 0, 0): {1: 20000},
    ("palettes_iterate", 0, 0): {1: 300, 2: 1100},
    ("positioning", 1, 2): {1: 1100, 3: 5000},
    ("positioning", 2, 1): {1: 1100, 2: 5000, 3: 1100},
    ("positioning", 2, 2): {1: 1100, 2: 1100, 3: 1100, 6: 5000},
    ("positioning", 4, 1): {1: 20000},
    ("positioning", 5, 1): {1: 20000},
    ("positioning", 6, 1): {1: 20000},
    ("store", 0, 0): {1: 20000},
    ("substitution", 2, 1): {1: 20000},
    ("substitution", 3, 1): {1: 20000},
    ("substitution", 4, 1): {3: 20000},
    ("substitution", 8, 1): {1: 20000, 2: 20000},
    ("typeface", 0, 0): {1: 5000},
}
# The lists whose lengths are given elsewhere
IMPLIED = {
    ("positioning", 1, 1): (3,),
    ("positioning", 1, 2): (4,),
    ("positioning", 2, 1): (5,),
    ("positioning", 2, 2): (7,),
    ("positioning", 4, 1): (1,),
    ("positioning", 5, 1): (1,),
    ("positioning", 6, 1): (1,),
    ("store", 0, 0): (2, 4),
}
# The harnesses that read differently
APART = ("palettes_iterate", "typeface")


def wide(harness, lists, lengths, formats=(0,), **rest):
    """Tables with one large list each."""
    result = []
    for index in lists:
        for format in formats:
            key = (harness, rest.get("kind", 0), format)
            if harness not in APART and index not in IMPLIED.get(key, ()):
                # A list of any length none of whose elements is on the tape
                result.append(
                    Run(harness, wide=index, long=1, format=format, budget=0, limit=0,
                        **{"flags": 2, **rest, "reach": (2,)})
                )
            # The number of elements is also the one of reads at least.
            most = 65535
            if index in NARROW.get(key, ()) or index in BROAD.get(key, ()):
                most = 8000
            most = MANY.get(key, {}).get(index, most)
            if harness not in ("coverage", "class") and max(lengths) < 1000:
                # Quick
                most = min(most, 3000 if most == 8000 else 10000)
            suitable = [length for length in lengths if length < most] + [most]
            result += [
                Run(harness, wide=index, length=length, format=format, budget=0, limit=0,
                    **{"flags": 2, "reach": (1,), **rest})
                for length in suitable
            ]
    return result


def long(harness, thorough, flags=2, **rest):
    """Tables with one list that is longer than the tape, whatever its length."""
    budget, limit = (5, 2) if thorough else (3, 1)
    return Run(harness, long=1, **{
        "budget": budget, "limit": limit, "flags": flags, "reach": (2,), **rest
    })


def runs(property, thorough):
    return PROPERTIES[property](thorough)


PROPERTIES = {}


def define(function):
    PROPERTIES[function.__name__] = function
    return function


def kinds(harness, numbers, thorough, **rest):
    """Subtables of a number of types."""
    return [small(harness, thorough, kind=kind, **rest) for kind in numbers]


LONG = {False: (300,), True: (255, 256, 257, 300, 4097)}
HUGE = {False: (300, 65535), True: (255, 256, 257, 32768, 65535)}


# Substitution: single, multiple, alternate, ligature, extension, and reverse chained.
@define
def C01(thorough):
    result = kinds("substitution", (1, 2, 3, 4, 7, 8), thorough)
    for kind, format, lists in [(1, 1, 1), (1, 2, 2), (2, 1, 3), (3, 1, 3), (4, 1, 4), (8, 1, 6)]:
        result += wide(
            "substitution", range(1, lists + 1), LONG[thorough], (format,), kind=kind
        )
    result += [long("substitution", thorough, kind=kind) for kind in (1, 2, 3, 4, 8)]
    return result


# Positioning: single and pair.
@define
def C02(thorough):
    return [
        small("positioning", thorough, kind=1, shards=4),
        small("positioning", thorough, kind=2, flags=2, shards=8),
    ] + [
        run
        for kind, format, lists in [(1, 1, 3), (1, 2, 4), (2, 1, 5), (2, 2, 7)]
        for run in wide(
            "positioning", range(1, lists + 1), LONG[thorough], (format,), kind=kind, flags=1
        )
    ] + [
        long("positioning", thorough, kind=1),
        long("positioning", thorough, kind=2, budget=2, flags=1),
    ]


# Positioning: cursive, mark-to-base, mark-to-ligature, mark-to-mark, and extension.
@define
def C03(thorough):
    return [
        small("anchor", thorough, budget=12, limit=12),
        small("positioning", thorough, kind=3),
        small("positioning", thorough, kind=4, shards=4),
        small("positioning", thorough, kind=5, shards=4),
        small("positioning", thorough, kind=6, shards=4),
        small("positioning", thorough, kind=9, reach=(1, 2)),
    ] + [
        run
        for kind, lists in [(3, 2), (4, 5), (5, 6), (6, 5)]
        for run in wide("positioning", range(1, lists + 1), LONG[thorough], (1,), kind=kind)
    ] + [long("positioning", thorough, kind=kind, budget=3, limit=1) for kind in (3, 4, 5, 6)]


@define
def C04(thorough):
    return [
        small("context", thorough),
        small("chained_context", thorough, shards=8),
        small("substitution", thorough, kind=5, budget=3),
        small("substitution", thorough, kind=6, budget=3, shards=4),
        small("positioning", thorough, kind=7, budget=3),
        small("positioning", thorough, kind=8, budget=3, shards=4),
    ] + [
        run
        for name, format, lists in [
            ("context", 1, 5), ("context", 2, 6), ("context", 3, 3),
            ("chained_context", 1, 7), ("chained_context", 2, 10), ("chained_context", 3, 7),
        ]
        for run in wide(name, range(1, lists + 1), LONG[thorough], (format,))
    ] + [long("context", thorough), long("chained_context", thorough)] + [
        long(name, thorough, kind=kind)
        for name, numbers in [("substitution", (5, 6)), ("positioning", (7, 8))]
        for kind in numbers
    ]


@define
def C05(thorough):
    return [
        small("coverage", thorough, budget=8, limit=4),
        small("class", thorough, budget=8, limit=4),
    ] + wide("coverage", (1,), HUGE[thorough], (1, 2)) + wide("class", (1,), HUGE[thorough], (1, 2)) + [
        long("coverage", thorough), long("class", thorough)
    ]


@define
def C06(thorough):
    return [
        small("correction", thorough, budget=64, limit=64)
    ] + wide("correction", (1,), LONG[thorough], (1, 2, 3)) + [long("correction", thorough)]


@define
def C07(thorough):
    return [
        small("lookups", thorough),
        small("directory", thorough),
        small("substitutions", thorough, budget=3, shards=4),
        small("positionings", thorough, budget=2, flags=1, shards=8),
    ] + wide("lookups", (1, 2), LONG[thorough], (1, 2)) + wide("directory", range(1, 9), LONG[thorough]) + [
        long("lookups", thorough),
        long("directory", thorough),
        long("substitutions", thorough, budget=2),
        long("positionings", thorough, budget=2, flags=1),
    ]


@define
def C08(thorough):
    return [
        small("scripts", thorough),
        small("features", thorough, reach=(1,)),
        small("directory", thorough),
    ] + wide("scripts", range(1, 5), LONG[thorough]) + wide("features", (1, 2), LONG[thorough]) + [
        long("scripts", thorough), long("features", thorough), long("directory", thorough)
    ]


@define
def C09(thorough):
    return [
        Run("lookup_flags"),
        Run("value_flags"),
        Run("axis_flags"),
        Run("instance_flags", reach=(1,)),
    ]


@define
def C10(thorough):
    return [
        small("definition", thorough, shards=2),
        small("attachments", thorough),
        small("ligature_carets", thorough),
        small("caret", thorough, budget=12, limit=12),
        small("mark_sets", thorough),
    ] + [
        run
        for name, lists in [("attachments", 3), ("ligature_carets", 3), ("mark_sets", 2)]
        for run in wide(name, range(1, lists + 1), LONG[thorough])
    ] + [
        long(name, thorough)
        for name in ("definition", "attachments", "ligature_carets", "mark_sets")
    ]


@define
def C11(thorough):
    return [small("store", thorough)] + wide("store", range(1, 5), LONG[thorough]) + [long("store", thorough)]


@define
def C12(thorough):
    return [
        small("palettes", thorough),
        Run("palettes_iterate", budget=6, limit=4),
        # Few palettes, many colors.
        *wide("palettes_iterate", (2,), LONG[thorough]),
        # Many palettes, few colors.
        *wide("palettes_iterate", (1,), LONG[thorough]),
    ] + wide("palettes", (1, 2), LONG[thorough]) + [long("palettes", thorough)]


@define
def C13(thorough):
    return [
        small("font_variations", thorough)
    ] + wide("font_variations", (1, 2), LONG[thorough]) + [long("font_variations", thorough)]


@define
def C14(thorough):
    return [
        Run("script_tags"),
        Run("language_tags", shards=8),
        Run("feature_tags", shards=4),
    ]


@define
def C15(thorough):
    return [
        Run("script_get", limit=4),
        Run("feature_get", limit=3, kind=1),
        Run("language_get", limit=2, kind=1),
        Run("script_get", limit=2, kind=1),
        Run("feature_get", limit=4),
        Run("language_get", limit=4),
        Run("script_get", length=40),
        Run("feature_get", length=40),
        Run("language_get", length=40),
    ]


@define
def C16(thorough):
    return [
        Run("location", kind=kind, budget=8, limit=2, reach=(1, 2), variant=variant)
        for kind in range(17) for variant in ("strict", "lenient")
    ] + [
        Run("location", kind=0, budget=8, limit=2, extra=2, variant=variant, reach=(1, 2))
        for variant in ("strict", "lenient")
    ] + [
        Run("succession", budget=8, limit=2, extra=3, variant=variant)
        for variant in ("strict", "lenient")
    ] + [
        # Fonts with many tables
        Run("location", kind=0, budget=4, least=100, limit=100, variant=variant)
        for variant in ("strict", "lenient")
    ]


@define
def C17(thorough):
    return [
        Run("location", kind=0, budget=40, limit=2, reach=(1, 2, 3)),
        Run("location", kind=10, budget=40, limit=2, reach=(1, 2, 3)),
    ] + [
        Run("location", kind=kind, length=length, limit=1, reach=(1, 2, 3))
        for kind in (0, 10)
        for length in (300, 4099, 5000, 5001, 5002) + ((70001,) if thorough else ())
    ] + [
        # Any size that is beyond the end of the tape
        Run("location", kind=kind, long=1, budget=budget, limit=2, reach=(2, 3))
        for kind in (0, 10)
        for budget in (4, 40)
    ]


@define
def C18(thorough):
    return [
        small("file", thorough, reach=(1, 2, 3)),
        small("typeface", thorough),
        Run("recognition"),
    ] + wide("file", (1,), LONG[thorough], reach=(1,)) + wide("typeface", (1,), LONG[thorough]) + [
        long("file", thorough)
    ]


ENDURE = [
    "coverage", "class", "correction", "context", "chained_context", "scripts", "features",
    "lookups", "directory", "definition", "attachments", "ligature_carets", "caret", "mark_sets",
    "store", "palettes", "font_variations", "anchor",
]

LEAVES = ["coverage", "class", "correction", "features", "caret", "palettes", "anchor"]


@define
def C19(thorough):
    result = []
    for fault in range(4):
        reach = (1, 2) if fault in (0, 3) else (1,)
        # Operations are interrupted and deliver in pieces more than once.
        rest, more = {"extra": fault}, {"extra": fault}
        if fault in (1, 2):
            more["times"] = 3 if thorough else 2
        for name in ENDURE:
            result.append(small(
                name + "_endure", thorough, budget=2, flags=1, reach=reach,
                **(more if name in LEAVES else rest)
            ))
        for kind in (1, 2, 3, 4, 5, 6, 7, 8):
            result.append(small(
                "substitution_endure", thorough, budget=2, flags=1, kind=kind, reach=reach,
                **rest
            ))
        for kind in (1, 2, 3, 4, 5, 6, 7, 8, 9):
            result.append(small(
                "positioning_endure", thorough, budget=2, flags=1, kind=kind, reach=reach,
                shards=4 if kind == 2 else 1, **rest
            ))
        for variant in ("strict", "lenient"):
            result.append(Run(
                "location_endure", budget=8, variant=variant,
                reach=(1, 2) if variant == "strict" else reach, **more
            ))
        result.append(small("file_endure", thorough, reach=reach, **more))
    return result


@define
def C20(thorough):
    more = 4 if thorough else 0
    result = []
    for name, budget in {
        "coverage": 32, "class": 32, "correction": 32, "context": 20, "chained_context": 20,
        "scripts": 24, "features": 24, "lookups": 24, "directory": 24, "definition": 24,
        "attachments": 24, "ligature_carets": 24, "caret": 32, "mark_sets": 24, "store": 20,
        "palettes": 32, "font_variations": 32, "anchor": 32, "substitutions": 24, "file": 32,
    }.items():
        result.append(Run(
            name + "_survive", budget=budget + more, limit=800,
            reach=(1,) if name == "features" else (1, 2)
        ))
    for kind, budget in {1: 32, 2: 24, 3: 24, 4: 24, 5: 20, 6: 20, 7: 32, 8: 20}.items():
        result.append(Run("substitution_survive", budget=budget + more, limit=800, kind=kind))
    for kind, budget in {1: 18, 2: 15, 3: 24, 4: 24, 5: 24, 6: 24, 7: 20, 8: 20, 9: 32}.items():
        result.append(Run("positioning_survive", budget=budget + more, limit=800, kind=kind))
    return result


@define
def C21(thorough):
    return [
        small("directory", thorough, variant="lenient"),
        small("scripts", thorough, variant="lenient"),
        small("positioning", thorough, kind=4, variant="lenient", shards=4),
        small("positioning", thorough, kind=5, variant="lenient", shards=4),
        small("positioning", thorough, kind=6, variant="lenient", shards=4),
        Run("location", kind=0, budget=8, limit=2, reach=(1, 2), variant="lenient"),
        Run("location", kind=0, long=1, budget=8, limit=2, reach=(1, 2), variant="lenient"),
    ] + [
        # A failure to read is a failure even when omissions are tolerated.
        small(
            name, thorough, budget=2, flags=1, extra=fault, variant="lenient",
            reach=(1, 2) if fault in (0, 3) else (1,), **rest
        )
        for fault in (0, 3)
        for name, rest in [
            ("directory_endure", {}), ("scripts_endure", {}),
            ("positioning_endure", {"kind": 4}), ("positioning_endure", {"kind": 5}),
            ("positioning_endure", {"kind": 6}),
        ]
    ] + [long("directory", thorough, variant="lenient")] + [
        long("positioning", thorough, kind=kind, budget=3, limit=1, variant="lenient")
        for kind in (4, 5, 6)
    ]


@define
def C22(thorough):
    names = [
        "coverage", "class", "correction", "context", "chained_context", "anchor", "caret",
        "mark_sets", "store", "language", "feature_variations", "definition", "palettes",
        "font_variations", "directory", "substitution_type", "positioning_type", "lookup_flags",
    ]
    result = [Run("reject_" + name, reach=(1,)) for name in names]
    result += [Run("reject_substitution", kind=kind, reach=(1,)) for kind in range(1, 9)]
    result += [Run("reject_positioning", kind=kind, reach=(1,)) for kind in range(1, 10)]
    return result + [Run("reject_value_flags", kind=kind, reach=(1,)) for kind in range(2)]


# Each option is put to the test of the others.
@define
def C23(thorough):
    result = []
    for variant in ("checksums", "directories", "language", "marks"):
        result += [
            small("directory", thorough, variant=variant),
            small("positioning", thorough, kind=4, variant=variant, budget=2),
            small("positioning", thorough, kind=5, variant=variant, budget=2),
            small("positioning", thorough, kind=6, variant=variant, budget=2),
            Run("location", kind=0, budget=8, limit=2, reach=(1, 2), variant=variant),
            Run("language_tags", variant=variant, kind=ord("D")),
        ]
        if thorough:
            result.append(Run("language_tags", variant=variant, shards=8))
    return result


MEMORY = 64 << 10


@define
def C24(thorough):
    """The requests for memory, in kilobytes"""
    result = C20(thorough)
    for run in result:
        run.parameters["memory"] = MEMORY
        run.params[KEYS["memory"]] = MEMORY
        run.name += f"-memory{MEMORY}"
    return result


@define
def C25(thorough):
    """The same as C01–C13 after having read something else with or without success"""
    rest = {"limit": 2, "flags": 1, "budget": 2 if thorough else 1, "before": 1}
    result = [
        Run(name + "_repeat", shards=4 if name in ("context", "definition") else 1,
            reach=(1, 2) if name in ("features", "scripts") else (1, 2, 3), **rest)
        for name in ENDURE if name != "chained_context"
    ] + [Run(name + "_repeat", reach=(1, 2, 3), **rest) for name in ("substitutions", "positionings")]
    result += [
        Run("substitution_repeat", kind=kind, reach=(1, 2, 3), **rest)
        for kind in (1, 2, 3, 4, 5, 7, 8)
    ] + [Run("positioning_repeat", kind=kind, reach=(1, 2, 3), **rest) for kind in (3, 7, 9)]
    # Without failures of the source
    rest["budget"], rest["extra"] = 1, 1
    result += [
        Run("positioning_repeat", kind=kind, reach=(1, 2, 3), **rest) for kind in (1, 4, 5, 6)
    ] + [Run("chained_context_repeat", shards=4, reach=(1, 2, 3), **rest)]
    if thorough:
        result += [
            Run("substitution_repeat", kind=6, shards=4, reach=(1, 2, 3), **rest),
            Run("positioning_repeat", kind=8, shards=4, reach=(1, 2, 3), **rest),
        ]
    # Over and over again
    often = {"limit": 2, "flags": 1, "budget": 0, "before": 0, "wellformed": 1, "rounds": 300}
    result += [
        Run(name + "_repeat", reach=(1, 2), **often)
        for name in ENDURE + ["substitutions", "positionings"]
    ] + [
        Run("substitution_repeat", kind=kind, reach=(1, 2), **often) for kind in range(1, 9)
    ] + [
        Run("positioning_repeat", kind=kind, reach=(1, 2), **{**often, "flags": 0})
        for kind in range(1, 10)
    ]
    rest["flags"], rest["wellformed"] = 0, 1
    return result + [Run("positioning_repeat", kind=2, shards=8, reach=(1,), **rest)]
