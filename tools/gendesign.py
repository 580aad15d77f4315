import json
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
head=open('/verif/DESIGN.md').read().split('(The per-property')[0].rstrip().split('## Properties')[0].rstrip()
S={}
def P(id,spec,explored,oracle,reach,limits,cost):
    S[id]=(spec,explored,oracle,reach,limits,cost)
P('C01','`Snapshot` after `UpdateSnapshot` equals the replay of `Log`, whatever was done before.',
 'All operation sequences (add, set, empty set, delete key, delete, snapshot, reset, undo, save+reload, history queries) to depth 5 over 14 letters and depth 7 over 6; all raw logs of length 4 over 5 kinds x 2 entries (also ones that do not replay), a snapshot at every prefix; long logs snapshotted every m operations.',
 '`ref.Replay`, a 60-line independent interpreter of logs; every prefix is compared.',
 'The cursor `Version`, the snapshot and undo interact through histories; tests have a handful.',
 'Two entries, two keys.','9 s / 1–3 min')
P('C02','begin/commit/rollback/`Do` never leave part of a transaction, in the log, the snapshot or `Version`.',
 'All sequences over begin/commit/rollback/do (ok, failing, snapshotting inside)/undo/mutate/snapshot/save letters (depths 5–7).',
 'A model log with one transaction marker; error identities for misuse; saved state afterwards.',
 'A transaction that is rolled back after a snapshot in its middle (seed s01) needs three specific steps in order.',
 'Undo of the last N while a transaction is open has no meaning in the API and is not combined.','13 s')
P('C03','`NVersions`, `EntrySnapshotAt`-like queries and `show … N` give exactly the entry N changes ago, are refused outside the range and never alias live data.',
 'All logs of length 4 over 5 kinds x 2 entries, every N from -2 to beyond the end, every entry; the `show`, `get … N` commands of the real program for every number of versions on every entry, also after edits, and entries with up to 300 (thorough 600) rounds of changes.',
 'Replay of the truncated log; the database is compared before and after mutating the result.',
 'Aliasing (seed s03) shows only in what a later query or save returns.','—','8 s')
P('C04','Save+load is the identity on log, version and snapshot, and malformed data is refused without a crash.',
 'All pairs of 29 awkward strings as key and value; every operation sequence of depth 5 executed twice, once saving and reloading after every step; every truncation, one-byte deletion and replacement of serialised documents.',
 'Equality of logs/snapshots with the run that was not reloaded.','Reload interleaved with histories (stale `version`, seed s05).','Invalid UTF-8 values are out of scope (JSON).','2 s')
P('C05','The merge of two forked logs contains each change exactly once, keeps each side\'s order, and is monotone in time where the inputs are.',
 'Common prefix x up to 2+2 (quick) or more operations per side x every weak ordering of their times (ties, clocks running backwards), up to 4+4 sets in all interleavings; long common prefixes.',
 'Multiset, subsequence and monotonicity oracles; the inputs must not be modified.','Ties and clock skew: the enumeration covers every weak order.','—','35 s')
P('C06','Replicas that exchange everything end equal, whatever the order of the merges.',
 'Two replicas with both argument orders and policies, remerging; three replicas in all pairing orders; hub schedules of 4 steps (edits and synchronisations of 3 replicas) with in-order, lagging and coarse clocks, followed by two rounds.',
 'Equality of the visible states (and of logs after re-merging: idempotence).','Schedules.','The very same transaction produced independently on two replicas is excluded.','63 s')
P('C07','Every entry deleted on one side and changed on the other is reported once, and resolved exactly as chosen; nothing else is reported.',
 'Every pair of forked histories with deletions (distinct times) and every assignment of restore/delete, complete and with each one missing.',
 'Reference conflict list and reference resolved log.','Conflicts at the end of a longer side after the other has ended (seed s02).','—','9 s')
P('C08','What one user encrypts all users decrypt, with passphrase or cached key; wrong/stale cached keys fall back or fail, never give other data.',
 'All numbers of users 1–3 (and 5–20), payload lengths, sequences of writers; crowds (up to 1001, thorough 9999, users) and payloads up to 17 MiB; after each encryption every user opens in every way.',
 'Plaintext equality; parameters returned must re-encrypt.','Key caching across sequences (seed s08: salt of another writer).','scrypt replaced by a cheap KDF of the same parameters; C10 runs the real one.','5 s')
P('C09','Damaged, truncated, foreign files and wrong credentials give an error – no crash, no data, no success.',
 'Every single-byte change (255 values), truncation, extension, insertion, deletion, block swap and splice of files of each kind, opened by each user; every padding value at each cipher stage; header-like and arbitrary bytes; the same through the program.',
 'Success only with right credentials on the exact bytes; any other byte string must give an error and no data for every user of the file (the SHA-512 inside the ciphertext covers header and plaintext, so the format can detect every change).',
 'The whole neighbourhood of valid files is enumerated.','—','26 s')
P('C10','Files follow the documented format; every salt, iv and key is freshly drawn, randomness failing is an error.',
 'Lengths 0–200 x 0–4 users read by the reference codec and vice versa; every call three times under a harness-supplied random source that hands out distinct bytes, and every position at which it can fail; three files with the real scrypt.',
 'Independent codec `mc/ref`; the set of drawn blocks.','Freshness is a property of the sequence of draws.','—','17 s')
P('C11','Unpad(Pad(x)) = x; Unpad accepts exactly valid padding; lengths are multiples of the block.',
 'All lengths 0–600 x block sizes 1–255; buffers 0–280 x every last byte x every run; every position of one wrong byte.','Definition of PKCS#7.','Complete in the bounded space.','—','9 s')
P('C12','Match is case-sensitive for upper-case search characters, insensitive for lower-case ones, and a subsequence match by characters.',
 'All pairs over an alphabet with multi-byte, case-irregular and malformed characters; every character below U+30000 against its own cases.','Subsequence matching by definition.','Case mappings that change the byte length (seed s12).','—','3 s')
P('C13','No two live entries share a name, whatever is created, renamed, deleted, merged; a refused operation changes nothing.',
 'All sequences of length 4 over 18 operations with colliding names (snapshot refreshed by the harness after every operation / after none / after every subset), duplicates after merges through `RenameDuplicates`; shell histories.',
 'Model of live names.','Stale snapshots (seed s13): the first version of this check refreshed the snapshot itself after every step and so hid the bug; the refresh is now part of the enumerated choice.','—','12 s')
P('C14','name/updated/iv/salt/mkey/totp are never changed by Set/DeleteKey in any letter case; every accepted edit stamps the entry with the time of the edit.',
 'Every letter case of the protected words, pairs and triples of operations over 2 entries, eight kinds of lookups made first; the same through the shell.',
 'Model of all fields; update time within the operation\'s time bounds.','Every case variant and stale snapshots (seed s14).','—','60 s')
P('C15','Searches by name, label and for users give exactly the matching entries.',
 'All queries up to length 4 over {a,b,A,/,é} against all 781 names up to length 4; all label queries; histories with every kind of query being the first to see a change; shell listings.','Reference matching.','Completeness over both argument spaces.','—','10 s')
P('C16','Adding/removing labels changes exactly the chosen one, keeps the order of the others; bad indices are refused.',
 'All histories of length 5 over 12 operations; pairs of 32 shell lines, offered texts.','Model list of labels.','—','—','40 s')
P('C17','A stored secret yields the RFC 6238 code for its parameters at every time; text that cannot produce codes is refused.',
 'Secrets x form x digits x period x algorithm x moments at window boundaries 2000–2255 on a virtual clock; ~160 chosen texts and all short texts over 7 characters offered bare, as URI and found in the file; pairs of shell lines.',
 'Independent HOTP/TOTP; acceptance iff codes can be produced and the text is a base32 secret or URI.','Window boundaries, parameters.','Hash functions of the standard library are trusted.','17 s')
P('C18','Generated passwords have the asked length, contain at least the required and nothing but the enabled classes, can contain every character at every position, and impossible wishes are refused.',
 'The real generator under harness-supplied randomness: base sequences with one or two bytes replaced by every value; all dialogues of 3 answers with the real program (copying or help never replaces the password shown).',
 'Per-password constraints and union of reached characters per position (reachability).','Reachability needs the whole byte space, not samples (seed s18).','In-package overlay test (the only one): genPassword is not exported.','~40 s')
P('C19','A session that ended normally stored every acknowledged change and nothing else; others left the file alone; reading changes nothing.',
 'All sequences of up to 2 of 17 commands x 9 ends x 6 start files; chains of 2–3 sessions; one session of every reading command on every entry of ordinary, unusual, malformed, multi-user databases; openings that must fail.',
 'Independent codec: history and snapshot of the saved file against what the session showed.','Whole-program histories.','What a command does to the running database is C32.','22 s')
P('C20','At every crash point of a save the file is the old or the new one; I/O errors are reported, exit non-zero and harm nothing.',
 'Every operation of the real save path is logged; all crash states (names and contents durable separately, writes lost/torn/complete) are rebuilt and opened; a kill before/after, every errno and short transfer at every operation (and pairs) through a syscall-level supervisor, followed by another session; new, small, two-user and 1.1 MB files, changed passphrases and rekeyed files of unchanged size, links, read-only and foreign-owned files; a temporary file that would have to come from another directory counts as a violation.',
 'Content equals old or new and opens; exit status and messages.','Crash states cannot be produced by tests.','A write is torn at first/middle/last byte or leaves zeroes; names durable in order; of a save with more than 80 operations only the first and last 25 and 20 others are disturbed in the fault runs.','35 s')
P('C21','-t shows exactly the state up to that second, refuses modifying commands, contacts nobody, leaves the bytes alone.',
 '24 times x every saved snapshot version x 4 histories (changes on, just before and after second boundaries; an entry in the middle of its creation) x single/multi x ends; 20 modifying commands at every time; malformed times; other time zones.',
 'Replay of the prefix; inotify watch on the remote; bytes and inode of the file.','Boundaries.','Times do not decrease along the history.','20 s')
P('C22','Exactly the users with their current passphrases can open the saved file; nobody else.',
 'All sequences of up to 3 of 14 steps (adduser, passwd, rekey, rekeyall, mv, rm, reopen…) for single and multi-user start files; odd names and passphrases; all pairs of 17 typings at six places that ask for a new passphrase twice.',
 'At every save every name ever used is tried with every passphrase ever used by the independent codec against a model.','Interaction of cached credentials with renames and rekeys (seed s22).','An entry that lost its user name by mv and gets one again is not modelled.','41 s')
P('C23','Synchronised replicas end with the same data, no change is lost that nobody gave up.',
 'All forks with up to 2 changes per side in all time orders with every answer; histories of 2–3 replicas and 1–2 file remotes with sessions and clock skew, then everybody synchronises.',
 'Reference merge; all copies equal at the end; the questions asked.','Schedules across replicas.','Synchronisations do not overlap in time.','53 s')
P('C24','Bad or failing remotes harm neither local data nor what is on the remote; users and passphrases of both sides are merged as documented.',
 '70 kinds of bad remotes x answers x a second good remote; kill/errno/short transfer at every file operation on the remote; up to 1+2 credential commands on both sides, made by the same or by another user; a remote whose entry the merge of another remote moves or deletes, with a third copy.',
 'Old-or-new oracle for each file, model of who may open it.','Fault enumeration.','—','26 s')
P('C25','An SSH server is used only if its key equals the recorded one or the user accepted it; nothing is sent before.',
 '29 kinds of recorded lines alone and in pairs x 4 sets of server keys x 9 answers x kinds of remotes; servers that close or send nothing; lists of several recorded hosts; further sessions with the same or other keys; a host confirmed while the merge deletes, renames, moves, switches off or re-keys the entry it is confirmed for, x changes made here, either first, then further synchronisations.',
 'What the in-harness server saw before and after; recorded lines.','—','A recorded line that is not of the program\'s own form may be refused or asked.','17 s')
P('C26','scp transfers deliver the whole file or an error; errors of the other side are reported.',
 'Sizes around all buffer sizes, every way to cut a small transfer into pieces, every prefix ended in every way, malformed headers, error answers at every step, the connection lost after every byte, files up to 9 MiB, names and paths with spaces, quotes, `$` and a leading `~/`, real scp binary (conformance).',
 'Content equality or error; the stored file on the other side.','Network schedules.','A server that never answers is out of scope (no timeouts in the protocol).','30 s')
P('C27','Every record becomes one entry with all its values; failing or unknown output imports nothing.',
 'Names (spaces, up to 12 of one name), values, groupings, formats over lists; every truncation of the output; failing/noisy lpass; existing files and answers; groupings with backslashes.',
 'Records vs entries decoded by the codec.','—','Characters a label cannot have may be dropped or replaced; CR before LF inside values.','15 s')
P('C28','The csv has one row per live entry with every current value and reads back exactly; failing output is reported.',
 'All histories of up to 3 steps, snapshots of every version, opened at every change with -t; output kinds; an error or short transfer at each operation.',
 'Independent csv reader vs replay.','—','Order of rows and columns is free; missing and empty look the same.','9 s')
P('C29','The editor gets exactly the value in a private file; exactly what it leaves is stored; nothing remains; contents are overwritten.',
 'Pairs of old/new values x editor behaviours (write, append, replace, delete, symlink, fifo, dir, killed, interrupts…) x kinds of keys x missing editors and temp dirs; errors and short transfers at every operation.',
 'Hard links kept by the editor stand-in, operation log, dump.','Editor behaviours and faults.','Program killed while the editor runs.','18 s')
P('C30','The clipboard gets exactly the asked secret and is cleared at the end of the session, however it ends.',
 'Every end (exit, EOF, interrupts, signals) x clipboards that work/fail/hang up x copies; all sequences of 3 of 15 commands; every end after other programs (an editor that works or fails) were run by the session.',
 'Recording xclip stand-in.','—','Clipboard is that of xclip; `gen` is not a session.','35 s')
P('C31','The passphrase typed into a pinentry arrives byte for byte; deviations are errors, cancellation is an empty answer, no process is left.',
 'Every byte, pairs, lengths over one assuan line; every step x every deviation; every set of installed programs; prompts; sequences of calls; sessions through a pinentry.',
 'Assuan stand-in which knows what it sent.','—','A program that hangs is left out.','18 s')
P('C32','A line performs exactly its documented effect on the one designated entry, or is refused and changes nothing.',
 'Every reading command with every list of ≤2 words out of 10 in 3 places, every writing command, ~190 odd lines, all pairs (thorough: triples) of 36 lines; lines that mean the current entry after changes made to it; every kind of key; every typed value of up to 5 lines with every end mark; update times in other time zones; ordinary, unusual (names differing in case, empty fields), empty, new and multi-user databases.',
 'Reference model of the shell (600 lines): database, output, clipboard, opened URLs, prompt after every line.','Space of lines x contexts.','Names are unique.','45 s')
P('C33','A wizard given up at any question leaves nothing; a completed account works with the described remote.',
 'add/addsync/adduser/passwd… given up at every question in every way; ports, hosts, users, paths, menu answers; sequences; accounts used against a real server.',
 'Dump before/after; what the server sees.','—','RSA keys only in a few executions.','13 s')
P('C34','Secrets appear only where they are asked for: in the output of the commands that show them, in hidden questions, in the clipboard, in files only their owner can read.',
 'Sessions of up to 2 commands out of 66 (thorough: in 6 kinds of databases, and 3 for one) with distinguishable secrets as passphrases, current and old passwords, notes, TOTP keys, notes typed line by line, scp passwords in good and bad URLs and typed answers; every subcommand in every kind of database; listings on a colour terminal.',
 'Each output, prompt, line remembered by the line editor, write of the program and of its children (traced), argument and environment of children, and every file left is searched for every secret; modes of new files; foreground = background colour around shown passwords.',
 'A leak is one path among many commands, answers and failures.','Conflict questions; set and adduser may repeat the value that was typed with them.','34 s',)
P('C35','The file that is asked for is the one that is opened, created and saved, and no other is touched.',
 'Which of three files exist × what -f/--file (absolute, relative, unclean, several spellings), $BPASS (unset, empty, absolute, relative) and HOME say × shell, looking, exporting, importing, the past, version, gen, a wrong passphrase; unusual names (spaces, leading `-`, quotes, `$`, `~`, glob characters, escapes, other scripts); symbolic links (also relative ones below linked directories) and directories.',
 'Each file has its own passphrase and contents; all files below the scratch directory before and after.','A product of configurations; tests use one.','—','65 s')
P('C36','Tab offers the commands, the names of the entries that exist at that moment, and keys; pressing it has no effect on anything.',
 'Every prefix of every command, name and key over 15 sets of names (prefixes of each other, spaces, other scripts, 120 names); all sequences of 2 (thorough 3) out of 16 changing commands (also given up, merging a remote, adding users) with Tab after each, at the end only, or at every question; 32 commands given up at each question in three ways, with and without Tab at every question; read-only sessions at every second of a history over every stored snapshot.',
 'The original library\'s completion over the names in the replayed history; the same session (same random bytes) without Tab: prompts, output, database, file, files left, clipboard, line history.',
 'Completion replays the log inside open transactions: what matters is when it is pressed.','How several candidates are displayed.','25 s')
seeds={}
import glob,os
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(m)); seeds.setdefault(d['property'],[]).append((os.path.basename(os.path.dirname(m)),d['needs']))
out=[head,'','## Properties','',
'Cost is the quick check on 8 cores including the build. Each section: what is specified; what is enumerated; against what; why tests cannot; what is left out.','']
for i in range(1,37):
    k='C%02d'%i; sp,ex,orc,re,li,co=S[k]
    lv=[c for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property']==k][0]['level']
    out+=['### %s %s'%(k,props[k]['title']),'','*Level* %s, *cost* %s.'%(lv,co),'','- **Specified:** '+sp,'- **Enumerated:** '+ex,'- **Oracle:** '+orc]
    if re!='—': out.append('- **Beyond tests:** '+re)
    if li!='—': out.append('- **Left out:** '+li)
    out.append('')
out+=['Not applicable: none; every property is decided by enumeration of executions of the real code.','',
'## Binding to the code','',
'No abstract model stands between the checks and the code: the explored object is always the real code',
'(packages linked into the checker, or the real program as a process). Reference models are oracles',
'only. What is replaced, and how that is validated: scrypt (C10 executes the real one on fixed and',
'fresh files), readline (the stand-in implements the same four calls; its completion code is the original\'s, compiled from the module cache), scp (C26 runs the real binary',
'next to the scripted server), xclip/lpass/pinentry/editor (recording scripts in a scratch PATH).',
'Harnesses use exported API, names fixed by the existing tests, or the program\'s own surface, so',
'refactorings do not break them; C18 alone needs `genPassword` (fixed by passwd_gen_test.go). All checks were also',
'run on a copy of the repository with many behaviour-preserving edits at once (helpers extracted, loops rewritten,',
'synchronisation in another order, other names of temporary files, files written in pieces of 512 bytes, random',
'bytes drawn in pieces, pinentry settings in another order, keys of imported entries and labels written in another',
'order): they stay quiet on it (C20 needed a bound on the number of disturbed operations, C34 another way to',
'recognise the editor\'s file).','',
'## Sizes and unusual inputs','',
'Bugs that need a size are searched for with sizes around powers of two and ten: histories of up to 70000',
'transactions and merges of up to 5000 changes and 300 conflicts a side (C01-C07), 1030 names and 30 sync',
'accounts (C13), files of up to 1025 entries with as many labels, keys, lines of notes and writes of one key',
'(C19, C32), 129 users (C22; 12 in C24), 33 remotes and common histories of 1025 entries (C23), 260 recorded',
'host lines (C25), 1030 imported records (C27), 1000 exported ones (C28), edited values beyond 64 KiB (C29).',
'Other families added late: C10 fresh salts and keys of saves by the real program; C13 names that differ in',
'case or white space; C16 lists of labels set by hand; C22 users that differ in case, fresh salts after each',
'change of a passphrase; C24 empty answers; C30 damaged secrets.','',
'## Decisions','',
'- Interrupt (^C) in a session ends it unsaved; ^D at a command\'s question aborts that command only; at',
'  the questions of a synchronisation both only decline that remote. Other errors of commands are printed',
'  and the session goes on. gen is not a session.',
'- Entries deleted on both sides with a change on one ask a question. Credentials changed on both sides:',
'  the side with the later last change wins, ties are asked.',
'- Oracles are lenient about wording, order of listings and about refusing what is not specified.',
'- Checks have internal deadlines (quick 300 s, thorough 720 s); what was not completed is reported as',
'  `exhaustive:false`, never as a violation.',
'- A failing execution is rerun 8 times and must fail at least 3 times to be reported.','',
'## Genuine defects found','',
'All were repaired by `fix:` commits (see `known_findings.txt` for the list, one line per defect); there',
'are no unrepaired findings. Known imperfections that break no stated property: a declined decryption',
'prints "failed to decrypt: <nil>"; `show` trims blank lines around a multi-line value;',
'`RenameDuplicates` is never called by the program, so names that become equal by a merge stay equal',
'until renamed by hand (C13 states uniqueness for operations, and for the repair function itself).','',
'## False alarms met and what was done','',
'- C30: processes started with SIGINT ignored kept ignoring it; the harness resets signal dispositions.',
'- C16: a terminal error in the middle of label input may keep or drop what was given; both are accepted.',
'- C29/C32: editing an empty value and leaving it empty removes the key; accepted (emptied is removed).',
'- C32: `show` trims white space around multi-line values; the oracle compares trimmed lines.',
'- C19: an entry without a name in a file crashes listings; no version of the program writes such files,',
'  so it is out of scope there – but the past of a file can contain one (C21), which was repaired.',
'- vcheck: planted-bug runs and scp tests share /home/bpasstest; they must not run concurrently.','',
'## Planted changes (seeded/) and what catches them','',
'| seed | property | needs | caught by |','|---|---|---|---|']
for k in sorted(seeds):
    for n,needs in seeds[k]: out.append('| %s | %s | %s | %s quick |'%(n,k,needs.strip().replace('|','/'),k))
out+=['','Missed at first, and what was strengthened: s13 (snapshots refreshed by the harness after every',
'operation hid stale ones; now a choice), s17 (bare secrets with query characters), s19 (every reading',
'command on unusual entries), s29 (blank values), s34 (failing clipboard), s35 (a decoy file in the current directory), s32 (names that differ in case only).','']
open('/verif/DESIGN.md','w').write('\n'.join(out)+'\n')
