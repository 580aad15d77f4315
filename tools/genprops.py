#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit titles, statements, anchors)."""
import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe,hook_needed=hook)))

p("C01","Current state is always the replay of the transaction log",
"After any sequence of database operations, updating the snapshot yields exactly the entries obtained by replaying the log from the beginning, the snapshot version equals the log length, and every operation appends exactly the transaction it describes. A log that cannot be replayed (a transaction on an entry that does not exist, an entry added twice) is reported as an error and never silently turned into state.",
["histories","inputs"],"every sequence of add/set/delkey/delete/snapshot/rollback/reload operations up to a depth over a small alphabet of entries and keys, and every replayability-violating log up to a length",
"Tests apply one hand-written log and compare once; the incremental snapshot is only interesting when updates, rollbacks, resets and reloads interleave in arbitrary order.",
["txlogs/txlogs.go"],[("incremental snapshot with version cursor","txlogs/txlogs.go UpdateSnapshot/applyTx"),("append-only log","txlogs/txlogs.go appendLog/Add")],
["DB.Snapshot, DB.Version, DB.Log after each operation"])

p("C02","Transactions are all-or-nothing",
"A rolled back transaction (explicitly, by an error from the transaction function, or by undoing the last N changes) leaves log and visible state exactly as before it began, whatever was snapshotted meanwhile; a committed one keeps every change. A database is never serialised while a transaction is open, and beginning, committing or rolling back in the wrong state is refused loudly.",
["histories"],"every sequence of begin/commit/rollback/do/undo-N/mutate/snapshot/save operations up to a depth",
"Tests roll back one short history without a snapshot taken at or inside the transaction boundary; the property is about every position of the boundary relative to the snapshot cursor.",
["txlogs/txlogs.go"],[("txPoint marker and log truncation","txlogs/txlogs.go Begin/Commit/Rollback/Do/RollbackN"),("save refused while txPoint set","txlogs/txlogs.go Save")],
["DB.Log and DB.Snapshot after rollback/commit; Save's error; panics"])

p("C03","History queries return the true past",
"For every log and every number of versions ago, the whole-database and per-entry history queries return exactly the state obtained by replaying the log without its last N transactions (of that entry), out-of-range or negative requests return an error rather than a wrong answer or a crash, and the version count and last-updated time of an entry match the log. History queries never change the current state.",
["histories","inputs"],"every log up to a length over a small alphabet, every N from below zero to beyond the log length, every entry including unknown ones",
"Tests look at one fixed log and two values of N.",
["txlogs/txlogs.go"],[("partial replay","txlogs/txlogs.go SnapshotAt/EntrySnapshotAt"),("log scans","txlogs/txlogs.go NVersions/LastUpdated")],
["return values; DB before/after"])

p("C04","Serialising and reloading the database loses nothing",
"Saving a database and loading it again yields the same log, transaction by transaction and byte for byte for every valid UTF-8 name, key and value, and the same current state, whether or not a snapshot was included; loading only the log gives that same log. Data that is not a serialised database is rejected with an error, never a crash, and later operations behave the same on a reloaded database as on the original.",
["histories","inputs"],"every operation history up to a depth with awkward strings, saved and reloaded at every point, plus every mutation/truncation of a small serialised database",
"Tests round-trip a single literal.",
["txlogs/txlogs.go","txlogs/tx.go"],[("json encoding with omitempty","txlogs/txlogs.go Save/New/NewLog"),("Tx field tags","txlogs/tx.go Tx")],
["DB and log after reload"])

p("C05","Merging forked logs loses no change and keeps order",
"Merging two logs that forked from a common history yields, when no conflict is reported, every transaction of both sides exactly once, the common part first, the rest in timestamp order with a deterministic tie-break, each side's own order preserved, and nothing else. The merged log can always be replayed, and the inputs are left unmodified.",
["histories","schedules"],"every pair of replicas up to a number of operations after every common prefix, with every interleaving of their timestamps including equal ones",
"Tests merge a handful of literal logs; order and completeness must hold for every interleaving of two histories.",
["txlogs/txlogs.go"],[("two-way merge by timestamp","txlogs/txlogs.go Merge"),("common prefix detection","txlogs/txlogs.go Merge")],
["the merged log and replayed snapshot"])

p("C06","Replicas converge whatever the merge order",
"Merging is commutative and idempotent, merging three replicas gives the same log in every pairing order (given the same answers to conflicts), and replicas which keep merging with each other or a hub end with identical logs. In particular two different logs are never mistaken for equal ones.",
["schedules","histories"],"every two- and three-replica history up to a depth, every merge pairing order, with and without conflicts resolved by the same policy",
"Convergence quantifies over all merge orders; the tests call Merge once per case with a fixed argument order.",
["txlogs/txlogs.go"],[("deterministic ordering","txlogs/txlogs.go Merge"),("no-fork fast path","txlogs/txlogs.go Merge")],
["merged logs of all replicas"])

p("C07","Delete conflicts are reported once each and resolved as chosen",
"A merge asks for a decision exactly when an entry deleted on one side was changed on the other after the deletion (once per entry and deletion, naming the deletion and the first change) or when the logs share no history, and it produces no merged log until every conflict is resolved. Keeping the deletion drops exactly the conflicting later changes of that entry; restoring drops exactly the deletion and keeps every change; other entries are unaffected, and re-merging with the resolutions always terminates with a replayable log.",
["histories","inputs"],"every pair of forked histories with deletions up to a depth and every assignment of resolutions to the reported conflicts",
"Tests exercise one entry with one conflict and one resolution each.",
["txlogs/txlogs.go","txlogs/tx.go"],[("conflict detection and resolution application","txlogs/txlogs.go Merge checkConflict"),("resolution flags","txlogs/tx.go Conflict")],
["conflict list, merged log"])

p("C08","Every user of a file can decrypt exactly what was encrypted",
"For every payload length and every number of users, what was encrypted is returned bit for bit to every user with their name and passphrase, and also with a cached key and salt, together with parameters that re-encrypt the file without locking anybody out. Stale cached keys are ignored in favour of the passphrase, and single- and multi-user files are recognised as such.",
["inputs","configurations"],"every payload length over several cipher-block periods x 0..4 users x every user x every credential path (passphrase, cached key, stale key) x chains of re-encryption",
"Tests use one payload and one or two users; padding and header arithmetic depend on every length and count.",
["crypt/crypto.go","crypt/crypto_v1.go","crypt/params.go"],[("cipher cascade and padding","crypt/crypto_v1.go encryptV1Single/encryptV1Multi/decryptV1*"),("user header table","crypt/crypto_v1.go encryptV1Multi/decryptV1Multi")],
["Decrypt's results"])

p("C09","Wrong credentials, damaged or foreign files are refused, never crash",
"Decryption with a wrong passphrase, wrong or unknown user, missing user, or of a file with any changed, missing, added or reordered bytes returns an error and no data, and never crashes or hangs. The same holds for arbitrary bytes that are not such a file, and for asking whether a file is multi-user.",
["inputs","fault_sequences"],"every single-byte change (several values per byte), every truncation and extension, block swaps, header-field rewrites, and a large set of wrong passphrases, over single- and multi-user files",
"Tests flip one or two bytes; a one-in-a-hundred crash on a wrong passphrase needs the whole space of resulting garbage paddings.",
["crypt/crypto.go","crypt/crypto_v1.go","pkcs7/pad.go"],[("sha512 over header and plaintext","crypt/crypto_v1.go"),("magic, version, nusers parsing","crypt/crypto.go verifyMagic/IsMultiUser")],
["error returned; absence of data; panics"])

p("C10","Files follow the documented format with strong, fresh key material",
"Every file written is readable by an independent implementation of the documented layout and cipher cascade with the documented scrypt cost, files in that layout written earlier remain readable, and no plaintext, passphrase or unencrypted key appears in them. Every encryption of a single-user file, key derivation, master key and master-key wrapping uses fresh randomness (salt, iv) covering the full size, and failing randomness is an error, never weak material.",
["inputs","histories","fault_sequences"],"payload lengths x users x repeated encryptions with randomness fully controlled and failing at each point, checked by an independent codec; a golden file with the real cost",
"The tests encrypt and decrypt with the same code, so a symmetric format change or reuse of an iv is invisible to them.",
["crypt/crypto_v1.go","crypt/crypto.go"],[("random iv/salt generation","crypt/crypto.go DeriveKey; crypt/crypto_v1.go"),("scrypt parameters","crypt/crypto_v1.go deriveKeyV1")],
["bytes of the file; bytes drawn from the random source; scrypt parameters"])

p("C11","Padding is exact and removable only when valid",
"Padding appends between 1 and k bytes so that the length becomes a multiple of k and removing it returns the original data, for every length and every block size below 256. Unpadding accepts a buffer exactly when it ends in a valid padding of 1 to 255 bytes, and returns an error otherwise, never a crash.",
["inputs"],"every length and block size in range, every final byte value and every corruption of the padding region up to a buffer size",
"Tests try a few lengths.",
["pkcs7/pad.go"],[("pad and unpad","pkcs7/pad.go Pad/Unpad")],["return values"])

p("C12","Fuzzy matching is case-aware subsequence matching",
"A search matches a name exactly when its characters appear in the name in order, a lowercase search character matching either case and any other character only itself; the case-folding variant ignores case on both sides. It holds for every pair of strings including multi-byte and malformed text, never crashes, and the empty search matches everything.",
["inputs"],"every pair of strings up to a length over an alphabet with cased letters, multi-byte characters of different widths and malformed bytes",
"Tests list two dozen pairs, none malformed or changing width with case.",
["fuzzy/fuzzy.go"],[("subsequence scan","fuzzy/fuzzy.go Match/MatchFold")],["return value"])

p("C13","Entry names stay unique",
"Creating, renaming, adding users or sync entries never lets two live entries share a name: a taken name is refused without any change (or, for sync entries, replaced by a free one), a free one, including that of a deleted or renamed entry, is accepted. Repairing duplicates that arrived by merging leaves all names distinct, renames only entries whose name was taken, reports the renames, and loses no entry.",
["histories","inputs"],"every sequence of create/rename/delete/add-user/add-sync/repair operations up to a depth over colliding names, including starting from duplicated states",
"There are no tests for the entry layer at all.",
["blobformat/blobs.go"],[("uniqueness scans","blobformat/blobs.go New/Rename/NewSync/NewUser"),("duplicate repair","blobformat/blobs.go RenameDuplicates")],
["names in the snapshot, returned errors"])

p("C14","System fields are protected and every edit is stamped",
"Name, update time, key-material and two-factor fields can not be set or removed through the general key operations in any letter case that the rules forbid, refused operations change nothing, and every accepted edit changes exactly the requested field of the requested entry and advances its update time. Lookups by id, name or user return exactly the entry concerned, or report absence.",
["histories","inputs"],"every operation sequence up to a depth over all special key names (all case variants), ordinary keys and several entries",
"There are no tests for the entry layer at all.",
["blobformat/blobs.go","blobformat/blob.go","blobformat/constants.go"],[("protected key list","blobformat/constants.go protectedKeys"),("touchUpdated","blobformat/blobs.go")],
["log appended per operation, returned errors, snapshot"])

p("C15","Searches return exactly the matching entries",
"A name query returns exactly the entries whose name fuzzily matches it, where a query with slashes must match the leading path segments one by one; a label query returns exactly the entries carrying all the given labels; the user list returns exactly the user entries; an empty query returns everything. Results always reflect the current state, and never depend on order, duplicates or on internal iteration order.",
["inputs","histories"],"every query up to a length over databases containing every combination of a set of names and label lists, after every kind of preceding change",
"There are no tests for searching entries.",
["blobformat/blobs.go","fuzzy/fuzzy.go"],[("fragment search","blobformat/blobs.go Search"),("label intersection","blobformat/blobs.go SearchLabels")],
["result maps"])

p("C16","Label edits change exactly the chosen label",
"Adding a label keeps all existing labels in order and adds exactly that one; removing one removes exactly that one and keeps the others in order, removing the last leaves no label; an index outside the list is an error and changes nothing. The label commands of the shell obey the same, refuse malformed or duplicate labels, and report an absent label.",
["histories","inputs"],"every sequence of label additions/removals up to a depth at every index, through the library and through the shell",
"There are no tests for labels.",
["blobformat/blobs.go","blobformat/blob.go","commands.go"],[("label list edit","blobformat/blobs.go AddLabel/RemoveLabel"),("shell label commands","commands.go addLabels/deleteLabel/validateLabel")],
["labels of the entry after each operation"])

p("C17","Two-factor codes are the right TOTP codes",
"Storing a two-factor secret as a bare key or as an otpauth URI accepts exactly what can later produce codes, and at every moment the code produced equals the RFC 6238 value for that secret, the moment and the URI's digits, period and algorithm, leading zeros included. Entries without a secret yield no code; non-TOTP or damaged secrets yield an error naming the entry.",
["inputs","configurations"],"every combination of secrets x digits x period x algorithm x moments (around step boundaries), checked against an independent RFC 6238 implementation under a virtual clock",
"There are no tests for two-factor codes.",
["blobformat/blob.go","blobformat/blobs.go"],[("TOTP generation","blobformat/blob.go TwoFactor"),("URI coercion","blobformat/blobs.go SetTwofactor")],
["code and error returned"])

p("C18","Generated passwords honour every requirement",
"A generated password has exactly the requested length, at least the requested number of characters of every class, none of a disabled class and no character outside the enabled classes, whatever the random bytes; an unsatisfiable request is refused with an error. Every password position and every enabled class can receive every character, and all length values terminate without a crash.",
["inputs","configurations"],"every small combination of length and per-class minimum/disabled settings with exhaustively enumerated random bytes, all lengths up to several hundred, and the interactive generator's command sequences",
"The tests sample the random generator on a few settings.",
["passwd_gen.go","uihelpers.go"],[("class picks and shuffle","passwd_gen.go genPassword"),("interactive settings","uihelpers.go getPassword")],
["the password / error"])

p("C19","What a session acknowledged is there when the file is reopened",
"After a session ends normally every accepted command's effect is in the file and nothing else changed, so reopening with the right credentials shows exactly the state at exit, including the whole history; an interrupted or failed session leaves the file as it was. Open and read commands alone never change the contents.",
["histories","inputs"],"every sequence of shell commands up to a depth, ended by exit, end of input or interrupt at every prompt, across several reopen cycles",
"No test runs the program; durability spans shell, store, crypto and file.",
["main.go","repl.go","commands.go"],[("load/save of the file","main.go loadBlob/saveBlob"),("interrupt path","main.go main; repl.go run")],
["file bytes decoded by an independent reader; program exit status"])

p("C20","A crash or I/O error while saving never destroys the database",
"If the program is killed, the machine stops, or any file operation fails at any point while saving, the database file afterwards opens as either the complete old or the complete new version, never a truncated, mixed or missing one, and a save that did not complete is reported with a non-zero exit status. A completed save is durable, keeps the file private to its owner and leaves no stray files.",
["crash_points","fault_sequences"],"every crash point between the file operations of a save with every subset of unsynced effects and torn writes, and every file operation failing with each error",
"No test touches saving; crash and error points cannot be reached by calling the program.",
["main.go"],[("file replacement","main.go saveBlob")],["the directory after each simulated crash/fault, reopened; exit status"])

p("C21","Read-only history mode shows the past and writes nothing",
"Opening the file at a past time (given in UTC, whatever the local time zone) shows exactly the state produced by the changes up to and including that time, refuses every modifying command, contacts no remote, and leaves the file byte-for-byte unchanged whatever is typed. A malformed time is refused.",
["inputs","histories"],"every history up to a length opened at every boundary (before, at, between, after each change) with every shell command",
"No test opens the program read-only.",
["main.go","repl.go","cli.go"],[("log truncation at load","main.go loadBlob"),("read-only gate","repl.go run")],
["listings, file bytes"])

p("C22","Users and passwords: the right people can open the file",
"After any sequence of adding, removing, renaming users, changing passwords and rekeying (own, other or all), every current user can open the saved file with exactly their latest password and nobody else can: old passwords, removed users and other users' passwords fail. A new passphrase only counts if it was typed the same twice and is not empty. The current user can never be locked out of or lose the file by such a command, and a rekey-all makes every earlier password and master key useless.",
["histories","configurations"],"every sequence of user-management commands up to a depth over a few users, followed by opening the file with every user x every password ever used",
"No test drives user management; each command only makes sense in the sequence it occurs in.",
["commands.go","uicontext.go","crypt/crypto_v1.go"],[("user entry update","commands.go passwd/adduser/rekey/rekeyAll/deleteEntry"),("encryption parameters from entries","uicontext.go makeParams")],
["which credentials open the file"])

p("C23","Synchronised replicas converge without losing changes",
"When several copies of a file synchronise through shared remotes, in any order, every change accepted by any copy reaches all copies once each has synchronised after the last change, all copies and the remote then hold the same history, and no change is lost, duplicated or reordered within a copy. Asking the user is limited to real conflicts, and the answer is applied as given.",
["schedules","histories"],"every interleaving of edits and synchronisations of two or three replicas through one or two remotes up to a depth, with each answer to each conflict",
"No test synchronises; convergence quantifies over schedules of edits and syncs.",
["sync.go","merging.go","txlogs/txlogs.go"],[("pull, merge, push","sync.go sync"),("log merge with prompts","merging.go mergeLogs/mergeBlobs")],
["decoded logs of each replica and remote"])

p("C24","A failing or foreign remote never harms local or remote data",
"If a remote is missing, unreachable, unreadable, not decryptable with the credentials the user gives, corrupt, empty or of an unknown kind, or the user declines to merge, synchronising reports it, leaves the local data intact and does not overwrite that remote, while the other remotes are still synchronised. When local and remote credentials differ the user is asked, and after the merge the file is encrypted with the winning side's credentials so it can always be opened.",
["fault_sequences","configurations"],"every kind of remote content x credentials relation x user answers, alone and in pairs of remotes in both orders",
"No test synchronises against a broken remote.",
["sync.go","merging.go"],[("per-remote error handling","sync.go sync/pullBlob/decryptBlob"),("credential reconciliation","merging.go mergeBlobs")],
["remote and local bytes before/after; which credentials open them; exit status"])

p("C25","SSH remotes are trusted only by pinned host keys",
"A connection to an ssh remote proceeds only if the server proves the key recorded for that host, or, when none is recorded, if the user explicitly confirms it; a changed key or key type aborts before any secret or file data is sent, and rejecting leaves nothing recorded. A confirmed key is recorded permanently so that the next connection does not ask, and other recorded hosts are kept.",
["inputs","fault_sequences","histories"],"every known-hosts content from a set (absent, matching, other host, changed key, changed type, malformed, several lines) x server keys x user answers, over successive sessions",
"No test connects with host key verification.",
["sync.go"],[("host key callback","sync.go hostAsker.callback"),("recording","sync.go saveHosts")],
["what the server receives; prompts; the entry's known hosts"])

p("C26","File transfer delivers whole files or an error",
"For every file content and every way the bytes are split in transit, a download returns exactly the remote content and an upload stores exactly the local content with the given name and mode; any protocol error, error reply, short, over-long or malformed answer, or connection loss at any point yields an error, never truncated data, a crash or unbounded memory. A missing remote file is distinguished from other errors.",
["fault_sequences","inputs"],"every fragmentation of small transfers, every reply deviation at every protocol step, every cut-off point of the stream",
"Tests run one transfer against a real server and a few literal streams.",
["scpsync/scpsync.go"],[("scp source/sink protocol","scpsync/scpsync.go sendFile/readFile/readResponse"),("session handling","scpsync/scpsync.go Recv/Send")],
["returned content/error; bytes the server received"])

p("C27","Importing from lastpass brings in every record exactly",
"Importing creates one entry per record with its user, password, url, notes, labels and a unique name derived from the record's, changes no existing entry, and imports nothing that is not a record. Unrecognised, truncated or failing input is reported and leaves the saved file unchanged.",
["inputs","fault_sequences"],"every combination of field presence/awkward content and name collisions up to a few records, header variations, command failures, existing or new database",
"No test imports.",
["import.go"],[("csv loop","import.go importLastpass")],["entries after reopening"])

p("C28","Exporting writes every current value once",
"An export contains a header with every key in use and one row per current entry with exactly its current values in the right columns, for all contents (quotes, commas, newlines), whatever state the file was saved in, and fails loudly when it cannot write or the format is unknown. Exporting does not alter the database contents.",
["inputs","histories"],"databases with every combination of keys and awkward values, saved with no, stale or fresh snapshots",
"No test exports.",
["export.go"],[("csv writer over the snapshot","export.go export")],["csv parsed back; exit status; file contents"])

p("C29","Editing in an external editor is exact and leaves no plaintext behind",
"Editing a key shows the editor exactly the current value in a file only the owner can read, and stores exactly what the editor leaves, removing the key if it is emptied; an editor that fails, is missing or deletes the file changes nothing and does not end the session. Whatever happens the temporary file is removed and its contents are overwritten first, and protected keys are not changed.",
["inputs","fault_sequences"],"every old/new value pair from a set x every editor behaviour (write, shrink, grow, empty, delete, replace, fail, missing) x every key kind",
"No test edits.",
["commands.go","osutil/osutil_linux.go"],[("temp file life-cycle","commands.go edit"),("editor launch","osutil/osutil_linux.go RunEditor")],
["temp directory, file bytes via a second link, entry value"])

p("C30","Clipboard receives exactly the requested secret and is cleared",
"The copy commands put exactly the requested value of the requested entry on the clipboard, and nothing if it is not set; login copies user, email, password and code in that order, one per confirmation. When the program ends, by any route and whatever failed, the clipboard is cleared unless asked not to, and a clipboard failure never loses data.",
["inputs","histories","fault_sequences"],"every copy command x entries with every subset of fields x every exit route x clipboard failures",
"No test uses the clipboard.",
["commands.go","repl.go","main.go"],[("copy","commands.go copyToClipboard/login/get"),("clearing at exit","main.go main")],
["sequence of values received by a stand-in clipboard program"])

p("C31","Passphrases typed into pinentry arrive unchanged",
"For every passphrase the value returned is exactly the one typed into the pinentry program after protocol unescaping; cancelling yields an empty answer and no error, and a program that fails, misbehaves or ends at any point of the conversation yields an error. It never hangs or crashes, absence of any program is reported as such, and the program is chosen from the configuration.",
["inputs","fault_sequences"],"every passphrase up to a length over an alphabet with escapes, and every deviation (error, garbage, eof) at every step of the conversation",
"No test talks to a pinentry.",
["pinentry/pinentry.go"],[("assuan conversation","pinentry/pinentry.go Password")],["returned password / error"])

p("C32","Every shell command does what it says to the right entry only",
"Any input line either performs exactly its documented effect on the one entry it designates (the exact name, the only match, or the entered entry) or is refused with a message and changes nothing; ambiguous, unknown or malformed input never changes data. No line ends the session or crashes the program except those meant to.",
["inputs","histories"],"every command with every small combination of arguments in every context (root, inside an entry), every pair and triple of such lines, against a reference model of the database",
"No test runs the shell.",
["repl.go","commands.go","uihelpers.go"],[("argument parsing","repl.go replCmds"),("designation","uihelpers.go findOne")],
["database dump after each line; program exit"])

p("C33","Abandoned wizards leave no trace",
"Adding an entry or a sync account is atomic: completing it creates the entry with exactly the values given (and, for sync accounts, one the synchroniser accepts, with a usable key pair whose public half is shown), while ending input or interrupting at any prompt leaves the database as before. A refused name or kind likewise creates nothing.",
["fault_sequences","inputs"],"every answer sequence from a small set per prompt, with end-of-input and interrupt injected at every prompt",
"No test runs the wizards.",
["commands.go","uihelpers.go"],[("transactional wizards","commands.go addNew/addSync/addSCPEntry")],
["database dump before/after; keys generated"])

p("C34","Secrets appear only where they are asked for",
"Passwords, notes, two-factor secrets, private keys and passphrases, whether stored, typed at a hidden prompt or part of a sync account's url, are never shown by opening, listing, copying, renaming, deleting, synchronising, changing users or closing, and showing one entry never shows another one's. They are never written in plain text to any file (the editor's temporary file and an export excepted), nor passed to other programs in arguments or environment, nor kept in the line editor's history; passphrases and manual passwords are asked without echo, show hides the password by colour on a colour terminal, and files the program makes are readable by their owner only.",
["histories","inputs"],"every sequence of two commands (three of a representative set) with their answers and ways to end, over single-user, multi-user, auto-synchronised, foreign-remote, read-only and new files, and every subcommand",
"Absence of a leak must hold for every command, error path and file; no test looks at output or files for secrets.",
["commands.go","sync.go","main.go","repl.go","readline.go","uihelpers.go","export.go","writefile.go"],[("hidden prompts","uihelpers.go promptPassword, readline.go LineHidden"),("history","readline.go readlineConfig/AddHistory"),("error texts","sync.go, commands.go"),("modes of new files","writefile.go, export.go")],
["output and prompts; all file writes of the program and its children; files left and their modes; line history; child arguments and environment"])

p("C35","The file that is asked for is opened, and no other",
"The file to open is the one named by -f/--file in any spelling, else the one in $BPASS unless empty, else .bpass in the home directory (the current one if there is none). Only that file is read, created or written by any command or subcommand; version and gen need no file and touch none, a read-only session and a failed or refused opening create and change nothing, links are followed and kept, and a directory is refused.",
["inputs"],"every spelling of the option x every kind of $BPASS x every set of existing files x every subcommand or session, with and without a home directory, through links and on directories",
"No test parses a command line or opens a file.",
["cli.go","main.go","writefile.go"],[("default, environment, option","cli.go parseCli"),("creating or opening","main.go loadBlob/saveBlob")],
["which files exist with which contents afterwards; which passphrase opens the session"])

p("C36","Tab completion offers what exists now, and pressing Tab changes nothing",
"At the shell's prompt Tab offers the commands that continue the line, after a command that takes an entry (rm mv cd show set get cp edit open rmk label rmlabel pass user email totp sync) the names of exactly the entries that exist at that moment (at the viewed moment in a read-only past session), whatever was added, renamed, deleted, merged or given up before, and after set/get/cp/edit/rmk and a name the keys email, user, pass, totp and notes. Pressing Tab at any prompt - before the file is open, at a question of any command, also one that is then given up - never prints, ends or crashes anything and leaves the rest of the session, the database, the saved file, clipboard and line history as they would be without it.",
["histories","inputs"],"all sequences of changing commands x moments of pressing Tab; all lines; every question of every command x how it is answered or given up",
"No test touches completion; it recomputes the current state inside uncommitted changes.",
["readline.go","blobformat/blobs.go","txlogs/txlogs.go"],[("candidates","readline.go entryCompleter"),("commands and keys","readline.go readlineAutocompleter"),("replay inside a transaction","txlogs.go UpdateSnapshot/Rollback")],
["candidates for a line; whole sessions with and without Tab: prompts, output, database, file"])

with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
