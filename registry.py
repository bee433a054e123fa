"""The checks: property -> harness module, bounds and assumptions (written into the evidence)."""
BUDGET = {"quick": 780, "thorough": 4 * 3600}
WITNESSES = {"quick": 24, "thorough": 96}
CHECKS = {}
NOT_APPLICABLE = {}
def c(prop, module, bounds, outside="", assumptions=()):
    CHECKS[prop] = {"module": module, "bounds": bounds, "outside": outside, "assumptions": list(assumptions)}

c("C01", "harness.wire",
  {"quick": "every packet kind of the registry; per job one field with rich content: text of 0-2 arbitrary Unicode scalar values, byte strings of 0-2 arbitrary bytes, one opaque run of up to 2^40 bytes, or such a run between single bytes, lists of 0-2 elements, optional present/absent; the other fields symbolic with one character/byte; integers over the full range; two messages back to back",
   "thorough": "as quick with text and byte strings up to 3 and lists up to 3"},
  "longer text with several multi-byte characters beyond the bound; lists longer than the bound; more than two messages in flight",
  ["opaque content runs are pairwise distinct and aperiodic (content-dependent behaviour inside a run is only covered by the short byte strings)", "z3 and the Python model of struct, UTF-8 and slicing in symx (validated by replaying sampled path witnesses on the real code)"])

ENGINE = "z3 and the symx models of Python's built-in types (every sampled path witness is replayed on the un-instrumented code and must behave identically)"
WORLD = "the model of the remote machine in model/ (files, accounts, processes, credentials, pipes); the dispatcher program itself runs unmodified on it"
PROGRAMS = "the models of the programs operations call (coreutils, shadow, package managers, systemctl, git) in model/commands.py"
def b(quick, thorough=None): return {"quick": quick, "thorough": thorough or quick + " (thorough: the same jobs with the larger sizes the harness selects)"}
c("C02", "harness.protocol", b("every request kind cut after every possible byte (symbolic cut position), text up to 2 characters, byte strings up to 2 bytes or one opaque run; every unknown kind number; for each of the 9 calls every truncation of the response and every other packet kind as response"), "two faults in one exchange", [ENGINE, WORLD])
c("C03", "harness.protocol", b("every argument of every connector call and every field of every packet kind with: integers outside its range (symbolic), text with lone surrogates, None and values of a wrong type; followed by a second request on the same connection"), "objects whose conversion methods have side effects", [ENGINE, WORLD])
c("C04", "harness.server", b("every combination of requested user/group (names and numbers up to 2 symbolic characters over existing and unknown accounts), umask text up to 5 characters, argument lists up to 2 with arbitrary text up to 2, stdin absent/short/opaque up to 2^32 bytes, directory existing, missing, a file, a link or vanishing between check and use"), "more arguments, longer names", [ENGINE, WORLD])
c("C05", "harness.server", b("stdout and stderr of 0-2 arbitrary bytes or opaque runs up to 2^32 bytes, every exit status -64..255, capture and check on or off"), "commands that keep background processes", [ENGINE, WORLD])
c("C06", "harness.server", b("destination missing, a file with symbolic attributes or a link; content 0-2 arbitrary bytes or an opaque run up to 2^32; mode text up to 5 characters; owner and group as existing or unknown names or numbers with symbolic characters"), "faults in the middle of an upload (covered as errors by C09)", [ENGINE, WORLD])
c("C07", "harness.server", b("all nine file kinds, directly and through a link, symbolic permission bits, owner and group ids with and without names, size, times within +-2^62 ns, checksum on or off; content short or opaque; every errno 1..133 of the status call"), "", [ENGINE, WORLD])
c("C08", "harness.server", b("account databases of 2-3 entries with symbolic one- or two-character names and ids, looked up by symbolic text or as the dispatcher's own identity; account fields with up to 2 arbitrary characters; environment names and values likewise"), "larger account databases", [ENGINE, WORLD])
c("C09", "harness.protocol", b("for each call one fault with a symbolic errno at a symbolic system call; argument text of up to 2 arbitrary characters including NUL and escaped bytes; three requests in a row"), "two faults in one request", [ENGINE, WORLD])
c("C10", "harness.protocol", b("opening and using a connection with the remote end dying after a symbolic number of bytes in either direction, failing to start, answering garbage, or failing the identity query; closing afterwards; reopening"), "a remote end that hangs without closing the stream", [ENGINE, WORLD])
OPS = [ENGINE, WORLD, PROGRAMS]
c("C13", "harness.opsall", b("each of 57 acting calls with its n-th remote command failing (n symbolic) with a symbolic exit status, or the n-th system call failing with a symbolic errno; each refused call with its arguments by keyword and by position, checking on and off"), "operations with more steps than the listed calls", OPS)
c("C14", "harness.opsall", b("the calls and initial states of C15-C17 and C19-C24, each run in dry-run mode on a copy of the machine and for real; attributes symbolic, owner and group absent or another account"), "", OPS)
c("C15", "harness.opsall", b("directory, file and link operations on a path that is missing or of any kind, permission bits 0-07777 symbolic, mode text of 3-4 octal digits or absent, owner and group absent or given, present/absent, touch on/off", "mode text of 1-5 octal digits, owner and group by name and number, otherwise as quick"), "", OPS)
c("C16", "harness.opsall", b("upload_content, upload, template_content and template on every kind of destination; content up to 2 arbitrary bytes or opaque; mode, owner and group symbolic"), "template syntax (jinja2 is trusted)", OPS + ["SHA-512 is treated as collision free"])
c("C17", "harness.opsall", b("the calls of C15, C16, C19-C24 run twice from a symbolic initial state"), "", OPS)
c("C18", "harness.opsall", b("every operation on every wrong kind of object with symbolic attributes; every path text of up to 2 characters that does not start with a slash"), "", OPS)
c("C19", "harness.opsall", b("files of up to 3 arbitrary bytes and lines of up to 2 characters, exact, whitespace-ignoring and regular-expression matching, with and without backup", "files of up to 4 bytes"), "longer files; regular expressions other than the listed ones", OPS)
c("C20", "harness.opsall", b("each account property absent, given as zero/empty or given with a symbolic value, on existing and missing accounts; group with symbolic ids"), "several properties with symbolic values at once", OPS)
c("C21", "harness.opsall", b("lists of up to 2 package names (symbolic choice, duplicates included) in every installed state for apt, pacman and portage, directly and through system.package, with and without extra options", "lists of up to 3"), "", OPS)
c("C22", "harness.opsall", b("every current ActiveState and UnitFileState, every requested state and boot setting, system and user instance, directly and through system.service; every invalid state text up to 2 characters"), "", OPS)
c("C23", "harness.opsall", b("path missing, a clone, a plain directory or a file; origin equal or different; branch, tag, annotated tag, suffix-matching refs; every combination of the options"), "an existing clone that is on another branch", OPS)
c("C24", "harness.opsall", b("source trees of depth up to 2 with up to 3 entries (each present or absent), names of up to 2 symbolic characters, source given absolute, relative, with a trailing slash or dots; destination named or as parent, missing, existing or clashing"), "symbolic links and unreadable directories in the source", OPS)
c("C25", "harness.opsall", b("each variable defined or not by script, host and call context with symbolic values, for plain, reserved, private and structured names"), "jinja2 itself", OPS)
CLIENT = "the model of the local machine (files, links, working directory) that holds inventory, group, host and script files; these modules call back into the harness"
c("C11", "harness.scripts", b("each of the 8 settings given or not in each of 2 nested scopes and as an argument, with existing and unknown accounts by name and number, directories, links, files and missing paths, and modes of 2-3 symbolic characters; every subset of all settings in one scope with one further setting in an inner scope; every identity of the dispatcher", "3 nested scopes, umask of up to 4 characters, one further setting as argument"), "relative working directories", OPS)
c("C12", "harness.scripts", b("nests of scopes and scripts up to depth 2 (depth 1 for all 9 spellings of a script), each level ending normally, by an ordinary exception, KeyboardInterrupt or another BaseException, or refused on entry; handled at any level; faults of getcwd, chdir, readlink and of the remote end while entering and leaving", "depth 3"), "threads; scripts that change fora's global variables themselves", OPS + [CLIENT])
c("C26", "harness.inventory", b("every directed graph of 4 groups (given by after, before or both), every graph of 3 groups including self references and every membership of a host; undeclared, duplicate and malformed declarations", "additionally every graph of 4 groups in each spelling"), "graphs with 5 or more groups", [ENGINE, CLIENT])
c("C27", "harness.inventory", b("every acyclic graph of 4 groups with each group defining, changing in place or ignoring a variable; 3 groups with constants, None, nested containers, dictionaries and objects without equality, initially defined by nobody, the global group, the inventory or the declaration; 5 groups with a fixed chain of three", "5 groups with three free edges less, all action kinds"), "assigning a value a variable already has (this counts as no assignment); equal values in distinct objects", [ENGINE, CLIENT])
c("C28", "harness.inventory", b("every subset of inventory, declaration, global group, two groups, host module and script defining a variable with symbolic values, for every membership; every kind of container or object shared by inventory or declarations, changed or replaced by any module, seen from three hosts"), "state shared through modules that group files import", [ENGINE, CLIENT])
c("C29", "harness.inventory", b("13 spellings of urls with host names of up to 3, users and ports of up to 2 symbolic characters, declared as text, dictionary or declaration, with and without explicit name; two declarations with symbolic names; every scheme of up to 4 characters", "host names of up to 4 characters, all pairs of spellings"), "the ssh program", [ENGINE])
c("C30", "harness.scripts", b("3 hosts; every host selection text of up to 5 characters over two letters and the comma; no selection; the options of the command line parser; any one host failing to connect, raising any kind of exception or the script missing", "4 hosts and texts of up to 6 characters"), "hosts that never answer", [ENGINE, WORLD, CLIENT])
c("C31", "harness.output", b("texts of up to 2 arbitrary characters and byte strings of up to 2 bytes through the escaping functions; diffs, failed command reports and operation reports on contents of up to 2 bytes over letters, line ends, control characters and undecodable bytes", "up to 3 bytes"), "text given by the user's own scripts (operation names, descriptions, paths)", [ENGINE, "difflib is executed symbolically from the standard library's source"])
c("C32", "harness.scripts", b("two parameters, each with or without default, given or not, with values of several kinds and symbolic text, undeclared ones given too, in 3 spellings, with a nested script; chains of up to 3 script calls in 8 spellings of 3 scripts, with and without permission to recurse", "chains of up to 4 calls"), "", [ENGINE, WORLD, CLIENT])
