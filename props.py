"""Table of scenarios, build variants and the budget of each property's check."""

HANG_S = 30       # a run takes milliseconds; no progress for this long is a hang
MINIMISE_S = 45

VARIANTS = {
    # as the project ships it: -O2, -DDEBUG (assertions on)
    "plain": {"flags": ["-O2", "-DDEBUG"]},
    # the README's production build: no DEBUG
    "prod": {"flags": ["-O2"]},
    # no DEBUG, sanitizers decide memory errors and undefined arithmetic
    "san": {"flags": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"]},
}

VARIANTS["checks"] = {"flags": ["-O2", "-DDEBUG", "-DUSE_DATETIME_CHECKS"]}  # the optional run-time checks
VARIANTS["checks-san"] = {"flags": VARIANTS["san"]["flags"] + ["-DDEBUG", "-DUSE_DATETIME_CHECKS"]}

# another compiler, other optimisations, and chars as on ARM
VARIANTS["clang"] = {"compiler": "clang++", "flags": ["-O3", "-DDEBUG", "-funsigned-char"]}
VARIANTS["checks-clang"] = {"compiler": "clang++", "flags": VARIANTS["clang"]["flags"] + ["-DUSE_DATETIME_CHECKS"]}

SCENARIOS = {
    "checked": {"sources": ["checked.cpp"], "locales": True},
    "world": {"sources": ["world.cpp"], "locales": True},
    "medium": {"sources": ["medium.cpp"], "locales": True},
    "disk": {"sources": ["disk.cpp"], "locales": True},
    "stream": {"sources": ["stream.cpp"], "locales": True},
    "ambient": {"sources": ["ambient.cpp"], "locales": True},
    "meter": {"sources": ["meter.cpp"], "locales": True},
    "fields": {"sources": ["fields.cpp"], "locales": True},
    # the simulator owns the allocator of the library and of the C++ runtime
    "oom": {"sources": ["oom.cpp"], "locales": True, "libs": ["-static-libstdc++", "-static-libgcc"]},
}

# scenario "threads": the library and tasks.cpp report every memory access to the simulator
TSAN = ["-O1", "-g", "-DDEBUG", "-U_FORTIFY_SOURCE", "-fno-builtin", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-pie"]
SCENARIOS["threads"] = {
    "sources": ["threads.cpp", "tasks.cpp"],
    "cxx": {"plain": ["-O1", "-DDEBUG", "-U_FORTIFY_SOURCE", "-fno-pie"]},
    "libflags": TSAN, "special": {"tasks.cpp": TSAN},
    "link": {"plain": ["-no-pie"]},
    "libs": ["-pthread", "-Wl,--wrap=_ZNSt6locale6globalERKS_,--wrap=__cxa_allocate_exception,--wrap=__cxa_guard_abort,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__isoc23_strtol,--wrap=__isoc23_strtoll,--wrap=__isoc23_strtoul,--wrap=asctime,--wrap=atof,--wrap=atoi,--wrap=calloc,--wrap=ctime,--wrap=free,--wrap=gmtime,--wrap=localtime,--wrap=malloc,--wrap=memchr,--wrap=memcmp,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock,--wrap=pthread_once,--wrap=pthread_rwlock_rdlock,--wrap=pthread_rwlock_tryrdlock,--wrap=pthread_rwlock_trywrlock,--wrap=pthread_rwlock_unlock,--wrap=pthread_rwlock_wrlock,--wrap=rand,--wrap=realloc,--wrap=setlocale,--wrap=strcasecmp,--wrap=strcat,--wrap=strchr,--wrap=strcmp,--wrap=strcpy,--wrap=strcspn,--wrap=strerror,--wrap=strlen,--wrap=strncasecmp,--wrap=strncmp,--wrap=strncpy,--wrap=strspn,--wrap=strstr,--wrap=strtod,--wrap=strtof,--wrap=strtok,--wrap=strtol,--wrap=strtoll,--wrap=strtoul,--wrap=vsnprintf,--wrap=vsprintf,--wrap=snprintf,--wrap=sprintf"],
}

REAL_CAL = "the library's src/*.hpp and src/*.cpp of the current /repo tree, compiled unmodified"
STUB_WORLD = ["true time and its advance (simulated)", "oscillators of the nodes (skew, stalls, steps)", "network between nodes (delay, loss, duplication, reordering)", "durable checkpoint store and process crash"]


def world(measure, quick, thorough, rule):
    return {"scenario": "world", "quick": quick, "thorough": thorough, "chunk": 4000, "measure": measure, "rule": rule,
            "real": [REAL_CAL], "stub": STUB_WORLD,
            "assumptions": ["years 1 to 9999", "the reference calendar, leap-second table and integer clock in sim/model.hpp are right (cross-checked against Python's datetime)"]}


PROPS = {
    "C01": world("distinct (library call, resolution, magnitude and sign of the adjustment, calendar edge it lands on)",
                 {"plain": (3000000, 90), "san": (80000, 45)}, {"plain": (40000000, 560), "san": (1000000, 240)},
                 "Faults: clock steps and adjustments, skew, stalls, crashes."),
    "C02": world("distinct (day of the 400-year cycle, resolution, edge of day) read",
                 {"plain": (3000000, 90), "san": (80000, 45)}, {"plain": (40000000, 560), "san": (1000000, 240)},
                 "Faults: clock steps, crashes, lost unsynced checkpoints."),
    "C03": world("distinct (resolution pair, relation of instants, relation of day and time-of-day parts) compared",
                 {"plain": (4000000, 90), "san": (80000, 45)}, {"plain": (60000000, 560), "san": (1000000, 240)},
                 "Faults: message delay, loss, duplication, reordering, clock steps and skew."),
    "C04": world("distinct (resolution, sign, zero/non-zero seconds, direction of split) intervals",
                 {"plain": (4000000, 90), "san": (80000, 45)}, {"plain": (60000000, 560), "san": (1000000, 240)},
                 "Faults: update delay, loss with retransmission, duplication, reordering, primary crashes, clock steps."),
    "C05": world("distinct (TAI-UTC value, first day of month, day before/after a change) observed",
                 {"plain": (4000000, 90), "san": (80000, 45)}, {"plain": (60000000, 560), "san": (1000000, 240)},
                 "Faults: clock steps forward and back across leap-second boundaries, skew, stalls."),
}

PROPS["C19"] = world("distinct (TAI-UTC value, resolution, second within a minute of midnight, day before/after a change) converted",
                     {"plain": (3000000, 90), "san": (80000, 45)}, {"plain": (40000000, 560), "san": (1000000, 240)},
                     "Faults: clock steps forward and back across leap-second boundaries, skew, stalls.")
PROPS["C19"]["assumptions"] = ["UTC clocks from 1972 on, not inside an inserted second", "TT-TAI is 32.184 s, GPS time is TAI-19 s", "the reference calendar and leap-second table in sim/model.hpp are right"]

STUB_MEDIUM = ["storage medium and its faults (truncation, bit flips, overwrites, losses, duplication, zero fill, splicing)"]
MEDIUM_ASSUME = ["records of up to three megabytes, read on a stack of one", "the reference reader in sim/records.hpp is right; forms the documentation leaves open (extra blanks, signs, exponents, 25 hours) may be rejected or read as their plain meaning"]
PROPS["C07"] = {"scenario": "medium", "quick": {"plain": (1500000, 90), "san": (400000, 90)}, "thorough": {"plain": (20000000, 400), "san": (6000000, 450)}, "chunk": 20000,
                "measure": "distinct (reader, resolution, returned/rejected, length of what the medium returned, value class)",
                "rule": "Faults: storage faults on the record before it is read.", "real": [REAL_CAL], "stub": STUB_MEDIUM,
                "assumptions": ["records of up to three megabytes, read on a stack of one", "over-reads are seen by an inaccessible page after the terminator and by the sanitizer build"]}
PROPS["C08"] = {"scenario": "medium", "quick": {"plain": (4000000, 90), "san": (200000, 45)}, "thorough": {"plain": (40000000, 700), "san": (1000000, 150)}, "chunk": 20000,
                "measure": "distinct (reader, resolution, reference verdict and reason, outcome, text hash mod 100003)",
                "rule": "Faults: storage faults on the record before it is read.", "real": [REAL_CAL], "stub": STUB_MEDIUM, "assumptions": MEDIUM_ASSUME}

PROPS["C06"] = {"scenario": "disk", "quick": {"plain": (1500000, 90), "san": (60000, 45)}, "thorough": {"plain": (20000000, 620), "san": (1000000, 150)}, "chunk": 4000,
                "measure": "distinct (writer, resolution, day of the 400-year cycle, ten minutes of the day) written, recovered and read back",
                "rule": "Faults: short writes, write errors, fsync errors, crashes with cut, torn or zeroed tails, clock steps.", "real": [REAL_CAL],
                "stub": ["disk and page cache (bytes, synced prefix)", "record framing with checksum", "process crash and restart", "clock steps"],
                "assumptions": ["years 1 to 9999", "the application frames records with a checksum and acknowledges after a successful fsync"]}
PROPS["C09"] = {"scenario": "stream", "quick": {"plain": (1500000, 90), "san": (60000, 45)}, "thorough": {"plain": (20000000, 620), "san": (1000000, 150)}, "chunk": 4000,
                "measure": "distinct (reader, resolution, bytes received past the record, record text hash mod 1009, trailing length) consumed",
                "rule": "Faults: short reads, stalls, connection resets, consumer crashes, early end of file, malformed records.", "real": [REAL_CAL],
                "stub": ["producer, network delivery and consumer loop", "consumer's persisted offset"],
                "assumptions": ["records are separated by a character that does not occur in them", "the stop position may be the last interpreted character or one past it (the documentation says one thing, two of the five readers do the other)"]}
AMB = {"scenario": "ambient", "quick": {"plain": (100000, 55), "prod": (30000, 30)}, "thorough": {"plain": (2000000, 600), "prod": (500000, 200)}, "chunk": 500,
       "measure": "distinct (operation, resolution, C locale, thread locale, C++ locale, errno class, outcome)",
       "rule": "Faults: errno left set, failed conversions, locale, time zone and wall clock switches, dirtied memory and series of calls by other tasks.", "real": [REAL_CAL, "libc and libstdc++ locale machinery with de_DE, fr_FR and tr_TR locales compiled by localedef"],
       "stub": ["the other tasks of the application"],
       "assumptions": ["reference is the same operation in a pristine process with the C locale", "locales de_DE, fr_FR, tr_TR and custom numpunct/num_put facets stand for all locales"]}
PROPS["C10"] = dict(AMB)
PROPS["C11"] = dict(AMB)
PROPS["C12"] = {"scenario": "oom", "quick": {"plain": (1000000, 60), "prod": (200000, 30)}, "thorough": {"plain": (12000000, 600), "prod": (3000000, 200)}, "chunk": 4000,
                "measure": "distinct (operation, resolution, failures fired, allocations made, first failing allocation, outcome)",
                "rule": "Faults: allocation failures (single, burst, persistent).", "real": [REAL_CAL, "libstdc++ (statically linked, its allocations included)"],
                "stub": ["operator new/delete, malloc family"],
                "assumptions": ["reference is the same operation with enough memory"]}

PROPS["C13"] = {"scenario": "threads", "quick": {"plain": (120000, 75)}, "thorough": {"plain": (2500000, 820)}, "chunk": 300,
                "measure": "distinct interleavings (hash over the access count of each thread at every switch, and the thread switched to)",
                "rule": "Faults: preemptions inside library calls at chosen memory accesses, stalled threads.",
                "real": [REAL_CAL, "libstdc++ headers (instrumented) and libstdc++.so, glibc", "real threads, one running at a time"],
                "stub": ["thread scheduler", "mutex, once and static-initialisation waits (same meaning, cooperative)"],
                "assumptions": ["two to four threads", "accesses inside the libstdc++ and glibc binaries are seen only for the string, memory and number functions the simulator wraps; functions with hidden static state count as writing it", "values of atomics are sequentially consistent; they synchronise as far as their memory order says"]}

METER = {"scenario": "meter", "real": [REAL_CAL],
         "stub": ["true time and its advance (simulated)", "network carrying counting events (delay, loss with retransmission, duplication, reordering)", "durable checkpoint store and process crash"]}
PROPS["C14"] = dict(METER, quick={"plain": (900000, 90), "san": (30000, 45)}, thorough={"plain": (20000000, 560), "san": (600000, 220)}, chunk=4000,
                    measure="distinct (type, operation, magnitude and sign of the amount, sign of the counter) applied and (type, relation, signs) compared",
                    rule="Faults: messages lost, duplicated, reordered, counters stepped, stalls, crashes, lost unsynced checkpoints.",
                    assumptions=["counters stay within half of their underlying integer's range"])
PROPS["C18"] = dict(METER, quick={"plain": (4000000, 75), "san": (150000, 45)}, thorough={"plain": (100000000, 560), "san": (4000000, 220)}, chunk=4000,
                    measure="distinct (resolution, sign, magnitude, zero/last-unit/whole-minute/whole-second edges) of the duration read",
                    rule="Faults: stopwatch steps, stalls, crashes, lost unsynced checkpoints.",
                    assumptions=["durations of up to about 10000 years of either sign"])
FIELDS = {"scenario": "fields", "real": [REAL_CAL], "stub": ["record store and its faults (bit flips, torn, lost and duplicated writes, fields of other records, zero fill, splicing)"]}
PROPS["C16"] = dict(FIELDS, quick={"plain": (5000000, 75), "san": (300000, 45)}, thorough={"plain": (100000000, 560), "san": (6000000, 220)}, chunk=20000,
                    measure="distinct month-name strings handed back by the store (case folded)",
                    rule="Faults: storage faults on a month's name before it is looked up.",
                    assumptions=["names of up to about 9000 bytes"])
PROPS["C17"] = dict(FIELDS, quick={"plain": (5000000, 75), "san": (300000, 45)}, thorough={"plain": (100000000, 560), "san": (6000000, 220)}, chunk=20000,
                    measure="distinct (year, month, day, day-of-year edge) checked",
                    rule="Faults: storage faults on the date's fields before they are checked.",
                    assumptions=["building dates: years 1 to 9999 (the validity checks: every int)"])
PROPS["C20"] = {"scenario": "checked", "quick": {"checks": (1800000, 75), "checks-san": (60000, 45)}, "thorough": {"checks": (30000000, 560), "checks-san": (1000000, 220)}, "chunk": 8000,
                "measure": "distinct (resolution pair, same day, order of times of day, equal, at midnight) subtracted, (resolution, lossy, over midnight) set back, and misuse kinds",
                "rule": "Faults: clock steps forward and back, stalls, crashes, negative amounts (misuse).", "real": [REAL_CAL + ", with USE_DATETIME_CHECKS"],
                "stub": ["true time and its advance (simulated)", "process abort of a failed check (recorded, the call is abandoned)", "process crash and restart"],
                "assumptions": ["instants from MJD 0 to year 9996", "the documented rule of the checked build: amounts are zero or positive"]}

# the thorough tier spends a seventh of its time on the other compiler's build
for _p, _q in PROPS.items():
    if _p == "C13":
        continue  # its library objects need GCC's race-detector instrumentation
    _m = "checks" if "checks" in _q["thorough"] else "plain"
    _n, _t = _q["thorough"][_m]
    _q["thorough"] = dict(_q["thorough"], **{_m: (_n * 3, _t - 100), "checks-clang" if _m == "checks" else "clang": (_n, 100)})
