SAN = ["-ftrivial-auto-var-init=pattern", "-g1", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
VARIANTS = {
  "asan": {"cc": "clang++", "lib": SAN, "harness": ["-g1", "-O1", "-fsanitize=address"], "link": ["-fsanitize=address,undefined"]},
  "points": {"cc": "clang++", "lib": ["-O1", "-g1", "-fsanitize-coverage=edge,no-prune,trace-pc,trace-loads,trace-stores", "-finstrument-functions-after-inlining"], "harness": ["-O1", "-g1"], "link": [], "libfirst": True},
  "race": {"cc": "clang++", "lib": ["-O1", "-g1", "-fsanitize=thread", "-fsanitize-coverage=edge,no-prune,trace-pc", "-finstrument-functions-after-inlining"], "harness": ["-O1", "-g1", "-fsanitize=thread"], "link": ["-fsanitize=thread"], "libfirst": True},
  "cost": {"cc": "clang++", "lib": ["-O1", "-g1", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fsanitize-coverage=edge,trace-pc"], "harness": ["-O1", "-g1"], "link": [], "libfirst": True},
  "fast": {"cc": "clang++", "lib": ["-O2", "-g1"], "harness": ["-O2", "-g1"], "link": []},
}
CHECKS = {}
def check(prop, *files, variant="asan", name=None, **kw):
    unit = {"name": name or prop, "variant": variant, "files": list(files) + ["mc.cpp"]}
    for k in ("tier", "extra", "link", "budget", "tool"):
        if k in kw: unit[k] = kw.pop(k)
    c = CHECKS.setdefault(prop, {"units": []}); c["units"].append(unit); c.update(kw)
check("C01", "C01_signverify.cpp", "env.cpp")
check("C02", "C02_interop.cpp", "env.cpp")
check("C03", "C03_tamper.cpp", "env.cpp")
check("C04", "C04_selection.cpp", "env.cpp")
check("C05", "C05_bodycanon.cpp", "env.cpp")
check("C06", "C06_headercanon.cpp", "env.cpp")
check("C07", "C07_bodylimit.cpp", "env.cpp")
check("C07", "C07_bodylimit.cpp", "env.cpp", variant="fast", name="C07huge", extra=["-DHUGE_BODIES"], tier="thorough")
check("C08", "C08_split.cpp", "env.cpp")
check("C09", "C09_taglist.cpp", "env.cpp")
check("C10", "C10_sigfields.cpp", "env.cpp")
check("C11", "C11_keyrecords.cpp", "env.cpp")
check("C12", "C12_dns.cpp", "env.cpp")
check("C14", "C14_history.cpp", "env.cpp")
check("C16", "C16_streams.cpp", "env.cpp")
check("C17", "C17_codecs.cpp", "env.cpp")
check("C18", "C18_encodedwords.cpp", "env.cpp")
check("C19", "C19_addresses.cpp", "env.cpp")
check("C20", "C20_tokens.cpp", "env.cpp")
check("C21", "C21_emitted.cpp", "env.cpp")
check("C22", "C22_options.cpp", "env.cpp")
check("C23", "C23_classes.cpp", "env.cpp")
check("C24", "C24_time.cpp", "env.cpp")
check("C26", "C26_discovery.cpp", "env.cpp")
check("C27", "C27_faults.cpp", "env.cpp", "crypto.cpp")
check("C25", "C25_tool.cpp", "env.cpp", tool={"name": "dkimtool", "variant": "asan", "files": ["toolenv.cpp"]})
check("C13", "C13_hostile.cpp", "env.cpp")
check("C28", "C28_ambient.cpp", "env.cpp")
check("C28", "C28_ambient.cpp", "env.cpp", variant="fast", name="C28memory", extra=["-DMEMORY"])
check("C29", "C29_resources.cpp", "env.cpp", "alloc.cpp", "crypto.cpp", link=["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "strdup", "strndup")])
check("C30", "C30_cost.cpp", "env.cpp", "cost.cpp", variant="cost", extra=["-fno-builtin"], link=["-Wl,--wrap=EVP_DigestUpdate"])
check("C15", "C15_threads.cpp", "baton.cpp", variant="points")
check("C15", "C15_threads.cpp", "baton.cpp", variant="race", name="C15race", extra=["-DRACE"])
T_SEQ = "stateless model checking: bounded exhaustive exploration of the real code against a reference model"
N_SEQ = "Every input in the stated bounds is executed on the real library (ASan and UBSan) and compared with an independent reference model; inputs outside the alphabets and lengths are not covered. Trusts the reference model in mc/ref.hpp and the explorer."
META = {k: (T_SEQ, N_SEQ) for k in ["C%02d" % i for i in range(1, 31)]}
META["C25"] = ("stateless model checking: bounded exhaustive exploration of the real executable against a model of its command line", "Every command line in the stated bounds is run with the real dkimtool (ASan and UBSan; clock and resolver interposed) and its output, messages and status are compared with a model of the option syntax and the reference verifier. Option words outside the alphabet, several messages when signing, unknown key types and non-numeric instances are not covered.")
META["C15"] = ("stateless model checking: exhaustive exploration of thread interleavings of the real code under a controlled scheduler (preemption bounded), with a race detector the scheduler hides nothing from", "The library is compiled with a callback at every basic block, load, store and function entry; one thread at a time owns a baton. Every single preemption point (quick: first, second and last visit of each program point; thorough: every point) and every pair of points at function entries and static accesses is run in a fresh process, and each thread's result is compared with its result alone. Preemption inside the C++ runtime, libcrypto, libsodium or libc is not explored (those are trusted to be thread safe); weak memory effects are only covered through ThreadSanitizer's race reports.")
META["C13"] = ("stateless model checking: bounded exhaustive exploration of the real code with memory, undefined-behaviour, exception and termination monitors", "Every input in the stated bounds runs on the real library under ASan and UBSan with pattern-filled automatic variables; any outcome other than a result or the library's own errors is a violation. Over-reads within the allocated capacity of a string are only seen where they change a result. Inputs outside the alphabets and lengths are not covered.")
META["C27"] = ("stateless model checking: exhaustive fault injection into the real code, compared with a reference model", "Every call of every interposed crypto primitive made by an operation fails in turn (and in pairs); the result must be refused or unchanged. Failures of primitives that are not interposed are not covered.")
META["C16"] = ("stateless model checking: exhaustive exploration of stream behaviours (reads, seeks, failures) around the real code", "Every division of the input into reads and every failure point in the stated bounds is executed on the real library and compared with the undivided run.")
META["C14"] = ("stateless model checking: bounded exhaustive exploration of operation histories on the real objects against fresh objects", "Every history up to the stated length is executed on the real library; each result is compared with the result of the same operation on fresh objects. Longer histories are not covered.")
META["C12"] = ("stateless model checking: bounded exhaustive exploration of resolver answers against a reference packet reader", "Every answer in the stated bounds is fed to the real resolver code through the interposed res_nquery and compared with an independent reading of the packet.")
META["C30"] = ("stateless model checking: bounded exhaustive exploration of pumped inputs (every unit at every offset of a well-formed input) on the real code with a deterministic counter of work", "The library is compiled so that every executed basic block, including the C++ library's templates, is counted, together with the octets handled by the C memory functions and by digests; no time is measured. Growth is judged between lengths up to some thousand repetitions; quadratic work with a constant too small to show there, and pumping of more than two places at once, are not covered.")
META["C28"] = ("stateless model checking: bounded exhaustive exploration of ambient process states around the real code, against the same operations in a fresh process", "Every operation of the family is executed under every listed ambient state and every pair of them (ASan and UBSan), and with heap and stack filled with each of a set of octets; the result must be the one of a fresh process in the C locale. Locales are compiled from the system's sources when the check runs; locales, states and memory patterns outside the lists are not covered.")
META["C29"] = ("stateless model checking: exhaustive fault injection (every allocation, every crypto call, stream errors) into the real code with a monitor of live allocations and descriptors", "Every operation of the family is executed with each of its allocations and each of its crypto calls failing in turn (alone, and with all later ones), and every block allocated in the window must be gone afterwards. Operations outside the family are not covered; leaks inside libcrypto when its own allocations fail are not judged; pairs of separate allocation failures are not explored.")
