#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to review)."""
import json, os
D="src/fora/connectors/tunnel_dispatcher.py"; T="src/fora/connectors/tunnel_connector.py"; CN="src/fora/connection.py"
F="src/fora/operations/files.py"; U="src/fora/operations/utils.py"; A="src/fora/operations/api.py"; S="src/fora/operations/system.py"
TY="src/fora/types.py"; L="src/fora/loader.py"; I="src/fora/inventory_wrapper.py"; UT="src/fora/utils.py"; M="src/fora/main.py"; LG="src/fora/logger.py"
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":m,"where":", ".join(files)} for m in mech]}
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Messages between fora and the remote dispatcher survive the wire unchanged",
  "Every message that is sent over a connection is received on the other side as the same kind of message with exactly the same field values, consuming exactly the bytes that were sent, so that messages sent back to back do not run into each other. This holds for all integers a field can carry, all text, all binary content of any length, absent optional values and lists.",
  ["inputs","histories"],"For every message kind, every combination of field values the kind can carry, and every sequence of two messages on one connection.",
  "Tests send a handful of short ASCII values; sign bits, boundary integers, multi-byte text, empty versus absent and very long content are a space only a solver can cover.",
  [D],["field serialisers and deserialisers","packet registry and packet header","request and response packet definitions"])
p("C02","A truncated or unknown message is refused and nothing of it is carried out",
  "If the stream to the dispatcher ends in the middle of a request, or a request has an unknown kind, the dispatcher stops without carrying out any part of that request. If the stream from the dispatcher ends in the middle of a response or the response kind is unknown or unexpected, the caller gets an error instead of a value made up from the partial data.",
  ["crash_points","inputs"],"For every request and response, and every byte position at which the stream is cut; for every unknown message number.",
  "A connection can break at any byte; tests never cut a stream.",
  [D,T],["exact-length reads","end-of-stream detection","response kind check"])
p("C03","A request that cannot be sent fails cleanly without poisoning the connection",
  "When a caller passes a value that cannot be transmitted (a number out of range, a wrong type, text that has no encoding), the call raises an error at the caller, nothing of the request reaches the remote host, and the next request on the same connection works and gets its own answer. It is never reported as a missing file or a missing user.",
  ["inputs","histories"],"For every request kind and field with an untransmittable value, followed by any further request on the same connection.",
  "Tests only send transmittable values, and a half-written message only shows on the following request.",
  [D,T],["packet writer","request/response pairing in the client"])
p("C04","Remote commands run exactly as requested or not at all",
  "A remote command is executed with exactly the given argument list and standard input, as the requested user and group (the user's primary group when only a user is given), with the requested umask (077 by default) and in the requested working directory, and keeps none of the extra group memberships of the dispatcher when it runs as another user. If the user, group, umask or directory is invalid, the caller gets an error and no process is started.",
  ["inputs","configurations"],"For every argument list, input, user and group given by name or number or not at all, umask, working directory and account database.",
  "Tests run as one account with a few fixed commands; identity and umask combinations and bad values are not enumerable by samples.",
  [D,T],["process request handler","child set-up before exec","user, group and umask resolution"],"identity, umask, directory, arguments and input of the executed child")
p("C05","Command results are exact and commands cannot disturb the connection",
  "The caller receives exactly the bytes the command wrote to standard output and standard error (nothing when output is not captured) and its exit status, including death by signal, and with checking enabled an error is raised exactly when the status is not zero. A command can neither read from nor write to the channel that carries the requests and responses.",
  ["inputs","configurations"],"For every output, exit status, capture and check flag and presence of standard input.",
  "Tests use commands with short fixed output and never leave output uncaptured or standard input open.",
  [D,T],["process request handler","result packet","exit status check in the client"])
p("C06","Uploads store exactly the content and attributes, or are refused without effect",
  "After a successful upload the file holds exactly the uploaded bytes and has exactly the requested permission bits (including set-user-id and set-group-id), owner and group, given by name or number; attributes that were not requested follow the documented default or stay as they were. If the mode, owner or group is invalid the caller gets an error and no file is created or changed.",
  ["inputs","configurations"],"For every content, mode, owner and group (name, number, absent, invalid) and every previous state of the destination.",
  "Tests upload as root with plain modes; ownership changes that clear special bits and invalid combinations are not sampled.",
  [D,T],["upload request handler","order of chmod and chown","user and group resolution"],"file state after the request")
p("C07","File status and downloads report the true remote state",
  "A status query returns the real type, permission bits, owner and group (names when they exist, numbers otherwise), size, times and, on request for regular files, the SHA-512 of the content; links are followed only on request, and only a path that does not exist is reported as missing. A download returns exactly the file's bytes.",
  ["inputs","configurations"],"For every file type, mode, owner, size, time (also before 1970), content and link structure.",
  "Tests stat a few ordinary files; times before the epoch, unnamed owners, special files and link chains are not covered.",
  [D,T,"src/fora/connectors/connector.py"],["status request handler","download request handler","mode rendering"])
p("C08","User, group and environment lookups report the true remote accounts",
  "Looking up a user or group by name or number returns the canonical name and the exact account data (ids, primary group, supplementary groups, home, shell, comment, password hash when requested), a name takes precedence over a number of the same spelling, and no argument means the identity the dispatcher runs as. Unknown accounts raise an error (or yield the caller's default), and an environment variable is returned exactly or as absent.",
  ["inputs","configurations"],"For every account database within the bound and every query by name, number or nothing.",
  "The build account database has a few fixed entries; numeric names, missing groups and unnamed ids never occur in tests.",
  [D,T,CN],["account resolution handlers","user and group query handlers","environment handler"])
p("C09","Every request gets exactly one answer, whatever the remote system does",
  "For every request the dispatcher sends exactly one response and keeps serving, even when any operating system call used to carry it out fails or a value cannot be used by the system; the failure reaches the caller as an error that carries the original error number for system errors. Failures other than a missing file are never turned into a normal result.",
  ["fault_sequences","inputs"],"For every request kind, every failing system call with every error number, unusable values such as embedded NUL characters, followed by a second request.",
  "Tests cannot make arbitrary system calls fail at arbitrary points.",
  [D,T],["dispatcher main loop","system error response","client error mapping"])
p("C10","Connections are opened and closed cleanly under every failure",
  "Opening a connection either yields a working connection or raises and leaves no dispatcher process running and no connection registered on the host; leaving a connection always unregisters it and reaps the process, also when the remote end died at any point. A connection that was closed can not be used as if it were open.",
  ["fault_sequences","crash_points"],"For every point at which the dispatcher process dies or answers wrongly during opening, use and closing.",
  "Tests only open healthy local connections.",
  [T,CN],["connection open and close","connection context manager"])
p("C11","Effective settings follow the documented precedence",
  "For every setting (user and group to run as, owner, group, file mode, directory mode, umask, working directory) an operation uses the innermost value that was given: explicit argument, then the enclosing default scopes from inside out, then the connection's base settings. Names are canonicalised and invalid users, groups, modes or directories raise an error instead of being used.",
  ["configurations","inputs"],"For every nesting of default scopes within the bound, every subset of settings given at each level and every value.",
  "The number of combinations of eight settings over several levels is far beyond a test table.",
  [TY,CN,"src/fora/remote_settings.py"],["defaults context","settings overlay","settings resolution"])
p("C12","Scopes are restored on every exit path",
  "When a default scope or a script ends, normally or through any exception raised anywhere inside it or while entering it, the effective settings, the current script, the script stack and the local working directory are exactly what they were before. Each script starts from the base settings, not from its caller's scopes.",
  ["histories","fault_sequences"],"For every nesting of scopes and scripts within the bound and every point at which an exception is raised.",
  "Tests unwind only a few fixed exceptions.",
  [TY,L],["defaults context","script runner","script stack"])
p("C13","Operations never hide a failure",
  "An operation that fails either raises or, with checking disabled, returns a result marked as failed with the failure message; it never returns success after one of its remote actions failed. With checking enabled every failure raises, whether the operation was given its arguments by position or by keyword.",
  ["fault_sequences","inputs"],"For every operation, every remote command or request that fails, and both settings of the check flag.",
  "Tests do not inject failures into the individual remote steps.",
  [A,F,U,S],["operation decorator","failure and success results","command exit status checks"])
p("C14","A dry run changes nothing and predicts the real run",
  "In dry-run mode no operation issues any request that changes the remote system. It reports the same change flag and the same initial and final states as a real run started from the same state.",
  ["configurations","inputs"],"For every operation, every set of arguments and every initial state within the bounds.",
  "Tests check the dry mode for a few arguments only; a single forgotten guard on a rare branch mutates a production host.",
  [F,U,S,"src/fora/operations/systemd.py","src/fora/operations/git.py"],["dry-run guards in the operations"])
p("C15","File, directory and link operations reach the requested state",
  "After a successful file, directory or link operation the path has the requested type, permission bits (including special bits), owner, group and link target, or is gone when absence was requested. Everything not managed by the call, such as file content, other paths and the object a link points to, is unchanged.",
  ["inputs","configurations"],"For every initial state of the path (missing or any type, mode, owner, target) and every requested attribute.",
  "State space of initial and requested attributes is far larger than the sampled cases; special bits and links to directories are not covered.",
  [F],["directory, file and link operations","permission and ownership commands"])
p("C16","Content operations leave exactly the requested content and attributes",
  "After a successful upload or template operation the destination holds exactly the given (or rendered) bytes with the effective mode, owner and group, whatever was there before. A destination that is not a regular file is refused and left alone.",
  ["inputs","configurations"],"For every content, every initial state of the destination and every requested attribute.",
  "Tests compare a few fixed contents.",
  [F,U],["content saving","content hash comparison"])
p("C17","Repeating an operation changes nothing and the change flag is truthful",
  "Running the same operation a second time reports no change and issues no changing request (except explicit touch and restart requests). The change flag of any run is set exactly when the managed state was different from the requested state.",
  ["histories","inputs"],"For every operation, argument set and initial state, over two consecutive runs.",
  "Idempotence must hold from every starting state, tests repeat a few.",
  [A,F,U,S],["initial and final state comparison"])
p("C18","Objects of the wrong type are refused and left untouched",
  "When the path given to an operation exists but is of a different kind than the operation manages, the operation fails and neither that object nor anything else is changed. Paths that are not absolute are refused before any remote request is made.",
  ["inputs","configurations"],"For every operation with a path, every existing file type and every path text.",
  "Tests try one wrong type per operation.",
  [F,U,"src/fora/operations/git.py"],["type checks before modification","absolute path check"])
p("C19","The line operation adds or removes exactly the requested line",
  "After the operation the file contains a matching line exactly if one was requested; adding appends the line and keeps every existing byte, removing deletes all matching lines and keeps every other line byte for byte. A requested backup holds the previous content under the documented name, and a missing file is created with the effective attributes only when a line is to be added.",
  ["inputs"],"For every file content within the bound (any line endings, encodings, missing final newline), line, whitespace flag and regular expression from the checked set.",
  "Line splitting, whitespace and encoding interact; tests use clean text.",
  [F],["line presence test","line removal","content reassembly"])
p("C20","User and group operations establish exactly the requested account",
  "After a successful user or group operation the account exists (or not) as requested and every given property (ids, primary group, supplementary groups, password hash, home, shell, comment) has the given value, including zero and empty values. Properties that were not given keep their value or get the documented default on creation.",
  ["inputs","configurations"],"For every initial account database and every combination of given and omitted properties.",
  "Tests run against a mocked account or none.",
  [S],["user operation","group operation","target state calculation"])
p("C21","Package operations install or remove exactly what is needed",
  "After a package operation every named package is installed (or none is, when absence was requested) and nothing else was touched; packages already in the requested state are not reinstalled or removed again. This holds for every supported package manager, with the user's extra options passed on.",
  ["inputs","configurations"],"For every list of packages (also with repetitions), installed set, supported manager and option list.",
  "No package manager is available in tests.",
  [U,"src/fora/operations/apt.py","src/fora/operations/pacman.py","src/fora/operations/portage.py",S],["generic package procedure","package manager queries","package manager detection"])
p("C22","Service operations start, stop and enable exactly as requested",
  "A service operation brings the unit to the requested state (started, stopped, restarted, reloaded) and boot setting with no more than the necessary actions, and leaves aspects that were not requested alone. The user-instance flag applies to every query and action, and invalid states are refused.",
  ["inputs","configurations"],"For every current unit state and every requested state, boot flag and user-instance flag.",
  "No service manager is available in tests.",
  ["src/fora/operations/systemd.py",S],["service operation","service manager detection"])
p("C23","Repository operations clone and update only the right repository",
  "A repository operation clones the requested url and revision when the path is missing, and with updating enabled brings an existing clone of that url to the newest revision. A clone of another url is refused when it would have to be updated, and with updating disabled an existing clone is left alone. Requested options (depth, rebase, fast-forward only, submodules) are applied to every step they belong to and to no other.",
  ["inputs","configurations"],"For every state of the path, remote and options.",
  "The git test needs the network and does not run here.",
  ["src/fora/operations/git.py"],["repository operation"])
p("C24","Directory uploads mirror the source tree at the right place",
  "Uploading a directory creates exactly the directories and files of the source below the destination (below a child with the source's name when the destination ends in a slash), with the given directory and file modes, owner and group, and leaves unrelated files alone. Single uploads and templates to a path ending in a slash are stored under the source's file name.",
  ["inputs","configurations"],"For every source tree within the bound and every spelling of source and destination path.",
  "Path spellings (trailing slashes, dots, relative names) and tree shapes are combined freely by users.",
  [F],["destination mapping","directory walk"])
p("C25","Templates see the right variables",
  "A template is rendered with all variables of the current host and the current script, where explicitly passed variables win over host variables and host variables win over script variables, and the current host and inventory objects are always available under their reserved names. Undefined variables raise an error instead of rendering as empty text.",
  ["configurations","inputs"],"For every combination of definitions of a variable at each level and every value.",
  "Combinations of shadowing are not enumerated by tests.",
  [F,TY],["template rendering context","hierarchical variables"])
p("C26","Groups are applied in dependency order and bad group graphs are refused",
  "For every accepted inventory each host's groups are loaded in an order in which every group comes after all groups it depends on (the global group first), each exactly once. Cyclic, self-referencing, duplicate or undeclared groups are refused with an error, and acyclic graphs are never refused.",
  ["configurations"],"For every dependency graph over the bounded number of groups and every group membership.",
  "The number of graphs grows exponentially; tests use three.",
  [I,UT],["dependency merge","rank calculation","topological order","declaration validation"])
p("C27","Ambiguous variable definitions between groups are always detected",
  "Loading a host fails exactly when two of its groups that are not ordered by a (transitive) dependency assign different values to the same variable, or one of them replaces what the other changed in place. A group that assigns the value a variable already has assigns nothing. Redefinition along a dependency is accepted and the dependent group wins.",
  ["configurations"],"For every dependency graph over the bounded number of groups and every placement of definitions and modifications.",
  "Whether a conflict is seen depends on the shape of the whole graph.",
  [I],["variable action history","conflict detection"])
p("C28","Hosts see exactly their own groups' variables",
  "A host's variables are those of the inventory, its declaration, its groups and its own module, where later sources override earlier ones (inventory, declaration, groups in order, host module); script variables only fill gaps. Nothing a group or host module does for one host is visible on another host.",
  ["configurations"],"For every placement of definitions over sources, group memberships of several hosts and load order.",
  "Tests check a few inherited values on single hosts.",
  [I,TY],["variable bequest between modules","host attribute lookup"])
p("C29","Host declarations get the right identity",
  "A host declared by url alone is named after the host part of its url, without user, port or scheme, for every documented spelling; urls without a scheme are taken as ssh. Two declarations with the same name are refused, declarations with neither url nor name are refused, and the connection goes to the declared url, through the connector of its scheme or the explicitly given one.",
  ["inputs"],"For every url text within the bound and every pair of declarations.",
  "Url spellings (user, port, scheme with or without slashes, addresses) are combined freely.",
  [I,"src/fora/connectors/ssh.py","src/fora/connectors/local.py"],["url qualification","host name extraction","duplicate detection"])
p("C30","A deploy runs on exactly the selected hosts",
  "A deploy runs the given script on exactly the hosts named on the command line (all hosts when none are named), once each and in the order given; a name that is not part of the inventory stops the program before anything is run. When a host fails, the error ends the deploy and no further host is touched.",
  ["inputs","configurations","fault_sequences"],"For every inventory of bounded size and every host selection text.",
  "Selections with repetitions, unknown or empty names are not tested.",
  [M],["host selection","deploy loop"])
p("C31","Printed output neutralises control characters from remote data",
  "In diffs, reported changes, failure messages and the output of failed commands, text that comes from remote hosts or file contents is printed with every non-printable character and undecodable byte escaped, so that remote data cannot emit terminal control sequences. Diffs show exactly the lines that differ.",
  ["inputs"],"For every text or byte content within the bound.",
  "Tests print no hostile text.",
  [LG],["value decoding and escaping","diff rendering"])
p("C32","Script parameters and recursion are checked",
  "A script receives exactly the passed parameters and its declared defaults for the others; a missing mandatory parameter raises an error. A script that is already running is not entered again unless recursion was explicitly allowed.",
  ["inputs","histories"],"For every set of declared, defaulted and passed parameters and every nesting of scripts within the bound.",
  "Combinations of declarations and recursion through several scripts are not tested.",
  [TY,L,"src/fora/operations/local.py"],["parameter declaration","script stack check"])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
    with open(out,"w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
