prop("C16", "--twist prints a quadratic twist of the curve otherwise printed",
 "With --twist, every printed curve is a quadratic twist of the curve the same options and answers give: over the same field, not isomorphic to it over that field but with equal j-invariant, with the order 2(q + 1) minus that of the untwisted one. This holds for every field, also with a or b zero, and its order, generators, points and metadata are those of the twist itself.",
 ["inputs", "configurations"], "every curve over every small field of both kinds, every reduction polynomial, option sets, random sizes",
 "No test judges the twist; formulas for even and odd characteristic and special curves (a or b zero) differ.",
 ["src/gen/curve.c", "src/exhaustive/exhaustive.c", "src/gen/order.c"], [("twisting", "src/gen/curve.c")],
 EX, "exhaustive enumeration of curves over small fields with real executions against brute-force counting and the definition of a twist",
 "Random large sizes are judged with the orders of both twins proved in the group. " + TRUST)
prop("C17", "A --timeout may expire at any point without harm",
 "Wherever in a run the timer of --timeout expires, and however often, the run still prints as many curves as requested, each of them correct and meeting the constraints asked for, and ends with success. The candidate that timed out is given up and generation starts anew from the next input or random candidate, and no other is lost; fixed data (order, seed, invalid curve of a prime) is not lost. Each timer is deleted, and no expiry crashes the run.",
 ["crash points", "configurations"], "every point of ecgen's code at which the timer can expire, alone and in pairs, for every method",
 "Tests use a timeout of several seconds that never expires at a chosen place; expiry is a siglongjmp out of arbitrary code.",
 ["src/util/timeout.c", "src/util/timeout.h", "src/exhaustive/exhaustive.c", "src/invalid/invalid_thread.c"], [("timer and jump", "src/util/timeout.h: timeout_start"), ("restart after an expiry", "src/exhaustive/exhaustive.c: exhaustive_gen_retry"), ("unrolling", "src/gen/point.c: points_unroll, src/gen/gens.c: gens_unroll")],
 EX, "exhaustive enumeration of the basic blocks of the real code at which the timer expires, with a virtual timer",
 "The first 1400 (12000) basic blocks of each run that are executed with the timer armed; expiries inside PARI or libc (which are not safe to jump out of) are not explored. " + TRUST, ["stdout JSON", "exit status", "timers created and deleted"])
prop("C18", "Output is one JSON array with the requested curves, on one channel",
 "A successful run prints exactly the requested number of records as one well-formed JSON array, on standard output or in the --output file (replaced, or extended with --append) and not in both; log and prompts never mix with it. What is printed does not depend on the channel, on the verbosity or on whether input comes from a file or from standard input. Where the input ends before the requested curves are complete, the run ends with a failure and what was printed is a well-formed array of the curves completed until then; files that cannot be opened never pass for success with the data lost.",
 ["configurations", "crash points"], "every method with every combination of channels and failing files; every length of the input",
 "Tests run one channel each and never end the input early.",
 ["src/io/output.c", "src/io/input.c", "src/exhaustive/exhaustive.c", "src/invalid/invalid.c"], [("array framing", "src/io/output.c: output_o_begin, output_o_separator, output_o_end"), ("channels", "src/io/output.c: output_init"), ("end of input", "src/exhaustive/exhaustive.c: exhaustive_generate")],
 EX, "exhaustive enumeration of channel combinations, open failures and truncation points of the input on the real code",
 TRUST)
prop("C19", "Interactive answers are asked for and used as documented, whatever their order",
 "For every sequence of answers, on standard input line by line or in a file separated by commas, ecgen asks exactly the questions of its dialogue in order (field, then a, then b; one seed for seeded methods), asks the same question again after an answer that is empty, not a whole number or too large, starts anew with the field after one that gives no usable curve, and otherwise uses each answer for the question it was given to, in decimal, hexadecimal or binary notation. Negative coefficients count modulo the field. When the answers run out the run ends with a failure having printed the curves completed until then; a last answer without a separator counts.",
 ["histories", "inputs"], "every sequence of good, bad, empty, negative, hexadecimal and oversized answers up to a length, in every kind of dialogue, cut off anywhere",
 "Tests answer each question once and properly. What follows a bad answer depends on the question, on answers before it, and on whether the input ends there.",
 ["src/io/input.c", "src/gen/field.c", "src/gen/equation.c", "src/gen/seed.c", "src/exhaustive/ansi.c", "src/exhaustive/brainpool.c"], [("reading of answers", "src/io/input.c"), ("what follows a bad answer", "src/gen/field.c, src/gen/equation.c"), ("seed questions", "src/exhaustive/ansi.c, src/exhaustive/brainpool.c")],
 MC, "explicit enumeration of all answer sequences of a reference dialogue up to a depth; every trace is replayed on the real program and compared on questions asked, curves printed and exit status",
 "Depth 5 to 7 (9 thorough) over alphabets of 4 to 7 answers per dialogue. " + TRUST, ["prompts on stderr", "stdout JSON", "exit status"], ["question being asked", "answers left"])
prop("C20", "The command line accepts what it documents and refuses the rest",
 "A command line without exactly one field kind, with two different generation methods, two of -p, -k and -B, a method that its field kind excludes, --nums with -r, --anomalous without -r, an unknown option, a missing or additional operand, or a malformed value is refused: the program ends with a failure and a message before it prints anything to standard output. Every other combination is accepted. Documented suffixes of sizes and times, long, short and abbreviated forms, and the order of options have their documented meaning.",
 ["inputs", "configurations"], "every combination of fields, at most two (three) methods, -r forms and constraints in several orders; well-formed and malformed values of every option",
 "Tests never run a combination that is to be refused. Refusals depend on pairs of options far apart in the code.",
 ["src/io/cli.c", "src/misc/config.h"], [("combinations", "src/io/cli.c: cli_end"), ("values", "src/io/cli.c: cli_parse")],
 EX, "exhaustive enumeration of option combinations on the real main function against a table of documented rules",
 "Accepted searches are cut after half a second. Orders and sizes that do not suit a method belong to C07 to C13. " + TRUST, ["exit status", "stdout", "stderr", "PARI stack and timer set"])
prop("C23", "--hex-check lets a curve pass exactly when its digits appear in it",
 "Every curve printed under --hex-check=HEX has the digits HEX, in any letter case and with or without 0x, within one number of its record (seed, field, coefficients, order, generators or points). No candidate whose p, a, b or order contains them is passed over, and the curves printed are candidates in input order. All other options keep their meaning.",
 ["inputs", "histories"], "every search of up to two (three) digits over long sequences of input candidates, with every kind of point list",
 "Tests check two searches on one curve. Whether digits match depends on padding, letter case, and which numbers adjoin in the text that is searched.",
 ["src/gen/hex.c", "src/io/cli.c", "src/exhaustive/exhaustive.c"], [("the search", "src/gen/hex.c: hex_check_param"), ("the option", "src/io/cli.c: cli_parse")],
 EX, "exhaustive enumeration of searches over sequences of candidates with real executions; the printed records are searched independently",
 "Fields of 5, 8, 9 and 16 bits. " + TRUST)
prop("C30", "Every constraint given is met by what is printed or named in a warning",
 "Under every generation method, each of -p, -k, -B, -K, -u, --points, --metadata and --hex-check that is given is either met by every curve printed or named in an \"Ignored command-line argument\" warning; it never goes unmet in silence, and no warning names an option that was not given. Whatever is given, each record printed is a correct one (curve, order, generators, points as in C01 to C04).",
 ["configurations"], "every method x every set of at most two (three) of these options",
 "Tests combine few options with few methods. The engine wires generators for each method separately, and a warning depends on whether the code that runs consulted the option.",
 ["src/exhaustive/exhaustive.c", "src/misc/config.c", "src/invalid/invalid.c", "src/cm/cm.c", "src/cm/anomalous.c", "src/cm/supersingular.c", "src/exhaustive/family.c"], [("wiring of generators", "src/exhaustive/exhaustive.c: exhaustive_ginit"), ("warnings", "src/misc/config.c: config_report_unused")],
 EX, "exhaustive enumeration of (method, option set) pairs on the real code, records judged by the independent oracle",
 "Searches that do not end within a second are not judged. " + TRUST, ["stdout JSON", "warnings on stderr"])
prop("C29", "A lost write, read, allocation or thread never passes for success",
 "If at any one point of a run an allocation, a write to its output, the closing of it, a read of its input or the start of a thread fails, or the PARI stack runs out, the run ends with a nonzero status and a message, or does exactly what it would have done otherwise (a file that cannot be opened is replaced by standard output). It never hangs, crashes or reports success with output missing or altered. What it printed before such an end is the beginning of the undisturbed output.",
 ["crash_points", "inputs", "configurations"], "every single allocation, output byte, write, close, input byte and thread start of runs of all methods; PARI stacks of every size on a ladder",
 "No test lets anything fail. A full disk, an unreadable file or a refused allocation matters at each of thousands of points of a run, each on its own path.",
 ["src/ecgen.c", "src/io/output.c", "src/io/input.c", "src/util/memory.c", "src/invalid/invalid.c", "src/exhaustive/ansi.c", "src/exhaustive/brainpool.c"], [("allocation", "src/util/memory.c: alloc"), ("output", "src/io/output.c: output_quit"), ("input", "src/io/input.c: input_i, input_string"), ("threads", "src/invalid/invalid.c: invalid_curves_threaded")],
 FE, "exhaustive enumeration of single fault points on the real code (failing allocator, stream and file layers), each judged against the undisturbed run",
 "One fault per run: PARI itself recurses without end when memory stays exhausted. Start-up of PARI is not disturbed. " + TRUST, ["stdout JSON", "output file", "exit status", "stderr"])
prop("C24", "Every curve, point and seed can be drawn, each with equal probability",
 "With -r every nonsingular curve over each field of the requested size is drawn with equal probability (field first, then a and b independently), and with -ra, -rb, -requation or -rfield the randomised part is uniform over its whole range, the other part as given. --points=random draws each multiple of a generator except infinity equally often, and every bit of a random --ansi seed is one random bit of its own. Each run seeds its random generator anew, also when /dev/urandom cannot be opened.",
 ["inputs", "histories", "configurations"], "the whole tree of random answers up to the curve, point or seed",
 "A test can only see that some random curve is valid; a bias or an unreachable curve shows in no single run.",
 ["src/gen/field.c", "src/gen/equation.c", "src/math/random.c", "src/gen/point.c", "src/gen/seed.c", "src/util/random.c"], [("seeding", "src/util/random.c"), ("random elements", "src/math/random.c"), ("coefficients", "src/gen/equation.c: a_gen_random"), ("points", "src/gen/point.c: points_gen_random")],
 EX, "exhaustive enumeration of the tree of answers of the random number generator, with exact probabilities of the leaves",
 "PARI's own generator is trusted to be uniform and is replaced by the enumerated answers. Fields of 3..5 (6) bits for whole trees, to 9 (12) bits for fields alone. " + TRUST)
prop("C25", "What a run does depends only on arguments, input and random answers",
 "Output, messages and exit status of a run are a function of the arguments, the input, the files it reads and the random answers it receives. They do not depend on what released or never initialised memory (heap, C stack, PARI stack) happens to contain.",
 ["inputs", "configurations", "histories"], "a broad grid of methods x option sets, dialogues and option values, each with several contents of unowned memory",
 "Memory left over from earlier steps usually still holds the old value in a test, so reading it goes unnoticed until another history, stack size or allocator overwrites it.",
 ["src/obj/curve.c", "src/exhaustive/exhaustive.c", "src/gen/order.c", "src/gen/point.c", "src/gen/hex.c", "src/misc/types.h"], [("release of values", "src/obj/curve.c: curve_free"), ("PARI stack discipline", "src/exhaustive/exhaustive.c: exhaustive_gen_retry")],
 EX, "exhaustive enumeration of a grid of runs, each executed under adversarial contents of unowned memory (fault injection at each function entry and exit) and compared",
 "Contents are two fill patterns, applied at each entry and exit of an ecgen function; the PARI stack is filled 32 KB below its top of use. " + TRUST)
prop("C28", "No run touches memory it does not own or has undefined behaviour",
 "No combination of arguments, input and random answers makes ecgen read or write memory outside its objects, use a freed object, overflow a signed integer, or end by a signal. A refusal of bad arguments or input is an orderly failure status.",
 ["inputs", "configurations", "histories"], "a broad grid of methods x option sets, dialogues of awkward answers, and option values of every length",
 "Tests run without sanitizers on well-formed input; an overrun by a byte mostly has no effect at once.",
 ["src/io/cli.c", "src/io/input.c", "src/io/output.c", "src/gen/seed.c", "src/gen/hex.c", "src/ansi/ansi.c", "src/brainpool/brainpool.c", "src/invalid/invalid.c", "src/util/str.c"], [("option parsing", "src/io/cli.c: cli_parse"), ("answers", "src/io/input.c: input_i"), ("records", "src/io/output.c: output_o_begin")],
 EX, "exhaustive enumeration of a grid of runs of the real code built with AddressSanitizer and UndefinedBehaviorSanitizer as monitors",
 "Memory inside PARI's stack is one object to the sanitizer. Shifts, alignment, variable-length arrays and null arguments of libc are not monitored. " + TRUST)
prop("C06", "Koblitz curves have the order given by the Frobenius trace recurrence",
 "For every degree m and a in {0,1}, a curve printed by --f2m --koblitz has the equation y^2 + xy = x^3 + ax^2 + 1 over the requested field and exactly the order 2^m + 1 - V_m, V being the Lucas sequence of the Frobenius trace of that curve over GF(2). The built-in order table, wherever it answers, gives exactly that number, and its answers are never used for twists, other field kinds or other curves.",
 ["inputs", "configurations"], "every degree, both values of a, every reduction polynomial, every combination with twist and cofactor",
 "The unit test checks a few entries; a wrong entry or its use for another curve silently yields a wrong order for large fields where nothing recounts it.",
 ["src/math/koblitz.c", "src/gen/order.c", "src/gen/equation.c"], [("order table", "src/math/koblitz.c"), ("use of the table", "src/gen/order.c")],
 EX, "exhaustive enumeration of degrees and of real runs against the Lucas recurrence",
 "All table lookups for degrees 0..2000; real runs for every degree to 130 (150) and all table degrees. " + TRUST)
prop("C14", "--invalid covers its prime set with curves sharing field and a",
 "--invalid prints the original curve first and then one curve per prime of the set, all over the same field with the same a, each with its exact order and generators. Every prime of the set divides the order of a listed curve that lists a point of exactly that order (and no point of any other order is listed); the set is the primes in [x,y] for RANGE x-y, the least prime >= n for RANGE n, and without RANGE consecutive primes from 2 whose product exceeds the order squared. A range without primes ends with a failure status after valid JSON with only the original; with --unique each listed curve has one generator.",
 ["inputs", "configurations", "histories"], "every original curve, every range, every sequence of random candidates",
 "Tests run one random 10-bit curve without judging the output.",
 ["src/invalid/invalid.c", "src/gen/point.c", "src/obj/curve.c"], [("prime set", "src/invalid/invalid.c: invalid_primes"), ("search", "src/invalid/invalid.c: invalid_curves_single"), ("points", "src/gen/point.c: points_gen_trial")],
 EX, "exhaustive enumeration of original curves, ranges and random answers with real executions against a brute-force oracle",
 "Only attainable prime sets are asked for (others make ecgen search for ever, by design). " + TRUST)
prop("C15", "Threaded --invalid is correct under every interleaving",
 "With --threads N, --invalid meets the same guarantees as with one thread under every interleaving of its threads: each prime is served exactly once, the JSON is well-formed, and the program ends with success. There is no deadlock, lost wakeup, reliance on the absence of spurious wakeups, data race in ecgen's code, or thread left running at the end.",
 ["schedules", "configurations"], "every interleaving of the synchronisation operations of 2 to 4 threads (within a preemption bound), with spurious wakeups",
 "Tests run one free schedule.",
 ["src/invalid/invalid.c", "src/invalid/invalid_thread.c"], [("state array and mutex", "src/invalid/invalid_thread.c"), ("printing loop", "src/invalid/invalid.c: invalid_curves_threaded")],
 MC, "stateless model checking of the real code under a controlled scheduler, with a vector-clock race monitor",
 "Preemption bound 2 (3 thorough); memory accesses inside PARI are not monitored; sound for ecgen's code because scheduling points at synchronisation operations suffice once races are excluded.", ["stdout JSON", "exit status"], ["states[]", "generated", "local_curves[]"])
prop("C21", "Bit strings behave as finite sequences of bits",
 "Every bit string operation (create, copy, convert from and to hex, binary, byte, integer, concatenate, shift, shorten, lengthen, and/or/xor-style combination, compare, get, set) computes exactly what it does on the sequence of bits it stands for, for every length, value and history of in-place operations, without touching memory it does not own. Copying an empty string into another leaves the target unchanged; out-of-place operations do not change their operands.",
 ["inputs", "histories"], "every bit string up to a length bound, every operation argument, every sequence of in-place operations up to a depth",
 "Tests check one or two fixed values per operation, mostly of whole-byte length.",
 ["src/util/bits.c"], [("bit string operations", "src/util/bits.c")],
 EX, "exhaustive enumeration of values, arguments and operation sequences on the real code under AddressSanitizer against a string reference",
 "All bit strings up to 10 (13) bits and patterned ones up to 300; operation sequences to depth 3 (4).", ["return values"])
prop("C22", "The reduction polynomial table is correct for every degree",
 "For every degree 2 <= m <= 10000 the polynomial ecgen chooses for a random binary field of degree m is irreducible over GF(2), has degree m and three terms if an irreducible trinomial of degree m exists, five otherwise. The run uses and prints that polynomial.",
 ["inputs"], "every degree from 2 to 10000",
 "The test looks at a handful of degrees; each entry is a separate fact.",
 ["src/math/poly.c", "src/math/poly.h", "src/gen/field.c"], [("polynomial table", "src/math/poly.c"), ("lookup", "src/math/poly.c: poly_find")],
 EX, "exhaustive enumeration of all degrees with an independent irreducibility test",
 "All degrees; the absence of a trinomial where the table has a pentanomial is checked for every degree by Swan's theorem and complete search of candidates within the tier's bound (see evidence).", ["poly_find results", "stdout JSON"])
prop("C26", "Seed hashing is SHA-1 for every input length",
 "The hash behind the seeded generation methods equals SHA-1 (FIPS 180-4) for messages of every length in bytes, including all padding boundaries, independent of how the message was split into updates. Hashing never changes its input bit string and always gives 160 bits, padded as the standard requires.",
 ["inputs"], "every message length up to a bound and every split into two updates",
 "Tests hash a few strings.",
 ["src/util/bits.c", "lib/sha1/sha1.c"], [("bits_sha1", "src/util/bits.c"), ("SHA-1", "lib/sha1/sha1.c")],
 EX, "exhaustive enumeration of message lengths and update splits against an independent SHA-1",
 "All lengths to the bound with several fillings.", ["return values"])
prop("C27", "The search engine follows its backtracking contract for every outcome history",
 "The engine calls the generators in order: an answer of 1 moves on, 0 repeats the step, -n goes back n steps (never before the start), undoing every step left behind in reverse order and restoring PARI's stack to where that step began; a check's answer replaces its generator's when negative or zero. A fatal answer, going back before step 0, or reaching the retry limit ends with failure, and a timeout restarts from the start step. No other call is made, whatever the sequence of outcomes.",
 ["histories", "fault_points", "configurations"], "every sequence of generator, check and timeout outcomes up to a depth, for every start, end and retry limit",
 "Tests drive the engine only through real generators that rarely fail.",
 ["src/exhaustive/exhaustive.c", "src/exhaustive/check.c", "src/util/timeout.h"], [("exhaustive_gen_retry", "src/exhaustive/exhaustive.c"), ("timeouts", "src/util/timeout.c")],
 MC, "explicit-state model checking of a reference model with every trace replayed on the real engine",
 "All outcome sequences of the first 7 (9) calls; deterministic continuation afterwards.", ["call history of the registered functions", "return value"], ["state", "tries[]", "tops[]"])
prop("C10", "--ansi curves are the ones their printed SEED determines",
 "A curve printed by --ansi has a seed of at least 160 bits, the given or input one where there is one, and the coefficients X9.62 derives from it: over F_p both are below p and r*b^2 = a^3 for the r of the seed, over F_2^m b is exactly the value derived. Such runs still meet the guarantees on order, points and constraints. A seed that gives only singular curves is refused instead of tried for ever.",
 ["inputs", "configurations", "histories"], "every field size, every way to give the seed, awkward seeds (wrap-around, zeros, odd length) and every choice of the random coefficient",
 "One test compares a standard curve; the block arithmetic differs for each field size modulo 160 and seed length.",
 ["src/exhaustive/ansi.c", "src/gen/seed.c"], [("derivation", "src/exhaustive/ansi.c"), ("seed input", "src/io/input.c: input_string")],
 EX, "exhaustive enumeration of field sizes, seeds and choices on the real code against an independent implementation of X9.62 A.3.3",
 "Seeds come from a fixed pattern set per field size. Binary runs with a random seed and an order constraint are not claimed (only a varies, so the search may not end). " + TRUST)
prop("C11", "--brainpool curves are the ones the procedure derives from the seed",
 "For every seed of 160 bits and every size, --brainpool and --brainpool-rfc print exactly the curve that their hash-and-increment procedure derives: the prime field (3 mod 4, of exactly the size), a with -3/a a fourth power, b a square (Brainpool) or not (RFC), prime order below p, embedding degree above (n-1)/100, and the generator k times the point of least x, up to the sign the random bit picks. The printed seed is the last one used, and a seed that leads nowhere passes on to the next instead of ending the run.",
 ["inputs", "configurations", "histories"], "every size, every way to give the seed, awkward seeds (wrap-around, zeros), both values of the random bit",
 "Tests run the method once without judging the curve; block boundaries of the hash expansion, increments past 2^160 and rejected candidates need specific seeds.",
 ["src/exhaustive/brainpool.c", "src/exhaustive/brainpool_rfc.c"], [("hash expansion", "src/exhaustive/brainpool.c: brainpool_hash"), ("procedure", "src/exhaustive/brainpool.c"), ("checks", "src/exhaustive/exhaustive.c: exhaustive_cinit")],
 EX, "exhaustive enumeration of sizes, seeds and random answers on the real code against an independent implementation of the whole procedure",
 "Whole runs to 96 bits (162 thorough), each stage alone to 330 (522); orders of candidates above 2^15 are PARI's. " + TRUST)
prop("C12", "--nums prints the curve the NUMS rules single out",
 "For every size with a NUMS curve, --nums first prints the one over the largest prime p = 3 mod 4 below 2^bits with a = -3 and the least b >= 1 for which the curve and its twist have prime order, the curve is not anomalous and its embedding degree exceeds (n-1)/100. Its generator is the point of least x >= 1 with the smaller y. This does not depend on random choices, input or display options, and every further curve of the same run also meets the rules except for least b.",
 ["inputs", "configurations", "histories"], "every size up to a bound, every option set and internal random seed",
 "Tests run one size without judging the curve.",
 ["src/exhaustive/nums.c", "src/exhaustive/exhaustive.c"], [("rules", "src/exhaustive/nums.c")],
 EX, "exhaustive enumeration of sizes and options with real executions against an independent search",
 "Whole runs to 40 (56) bits; fields to 400 (700) bits. " + TRUST)
prop("C13", "--family curves are the members of the family their z gives",
 "A curve printed by --family is over F_p for p the family's polynomial at the printed z, with p and r(z) prime, r(z) dividing its exact order, the family's j-invariant and, for r(z), its embedding degree. Values of z from input that do not give such primes or are unreadable or too large are passed over and the others used in order; a random z has the requested size.",
 ["inputs", "configurations"], "every z of a range around 0 for every family, in every order, from input or at random",
 "Tests run two families at random without judging the curve.",
 ["src/exhaustive/family.c", "src/cm/cm_any.c", "src/io/cli.c"], [("polynomials", "src/exhaustive/family.c: family_init"), ("equation", "src/exhaustive/family.c: family_gen_equation_iter"), ("subgroup order", "src/exhaustive/family.c: family_gen_order")],
 EX, "exhaustive enumeration of z ranges with real executions against an independent evaluation of the families",
 "KSS40 has few usable z: five of them are tried, each amid unusable ones, of 13 to 15 bits. " + TRUST)
prop("C07", "--order prints curves of exactly the order asked for",
 "Every curve printed by --order=N (decimal, 0x hexadecimal, or a comma-separated list of factors to be multiplied) is a nonsingular curve over a prime field with exactly N points, and its record (points, subgroup, cofactor, generators, metadata) follows the point options given. For every N >= 3 except 4 for which the search is short, -c K gives K such curves. An order of zero, one that is not a number, or one that does not fit the number of bits given is refused.",
 ["inputs", "configurations"], "every order of a range in decimal, hexadecimal and factored form, with every kind of point option; larger orders",
 "Tests run three orders without judging the curves. The right twist must be picked for each discriminant, with special cases for j = 0, 1728 and small primes, so errors show only for particular orders.",
 ["src/cm/cm_any.c", "src/cm/cm_prime.c", "src/cm/cm.c", "src/io/cli.c"], [("search of a discriminant", "src/cm/cm_prime.c, src/cm/cm_any.c"), ("curve of the discriminant", "src/cm/cm.c"), ("option", "src/io/cli.c: cli_parse")],
 EX, "exhaustive enumeration of requested orders with real executions; the points are counted again by brute force, or the order is proved in the group for large fields",
 "For orders above 1300 (9000 thorough) a run that does not end within seconds is not judged. " + TRUST)
prop("C08", "--supersingular prints supersingular curves",
 "Over a prime field from input or at random, --supersingular prints a nonsingular curve over the next usable prime, in input order, with exactly p + 1 points, and a record that follows the point options. Numbers that are not odd primes or are too large are passed over, and a random prime has exactly the requested size.",
 ["inputs", "configurations"], "every prime below a bound, given by input in any company, every size at random, every kind of point option",
 "Tests run the method once without judging the curve. The discriminant that is inert depends on p, with special cases for p = 3 mod 4 and small p.",
 ["src/cm/supersingular.c", "src/gen/field.c"], [("equation", "src/cm/supersingular.c")],
 EX, "exhaustive enumeration of prime fields with real executions; points are counted by brute force", TRUST)
prop("C09", "--anomalous prints anomalous curves of the requested size",
 "For every size that has a prime of the form 163 n (n + 1) + 41, --anomalous -r prints a nonsingular curve over a prime field of exactly that many bits with exactly p points, and a record that follows the point options. A size that contains no number of that form is refused.",
 ["inputs", "configurations"], "every size, every random answer for small sizes, many seeds for larger ones",
 "Tests run two sizes without judging the curve. Half of the twists have the wrong order, and the field must not leave the size.",
 ["src/cm/anomalous.c"], [("field", "src/cm/anomalous.c: anomalous_gen_field"), ("equation", "src/cm/anomalous.c: anomalous_gen_equation")],
 EX, "exhaustive enumeration of random answers for small sizes, seeds for larger ones, on the real code; points are counted by brute force", TRUST)
