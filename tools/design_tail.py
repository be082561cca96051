import re,json,os
p='/verif/DESIGN.md'
s=open(p).read()
i=s.find('\n## Limits of runtime monitoring')
if i>0: s=s[:i]
def add(id,text,cost=None):
    global s
    m=re.search(r'### %s .*?\n\n(.*?)(?=\n### |\n## |\Z)'%id,s,re.S)
    body=m.group(1)
    if text.strip() in body: nb=body
    else: nb=re.sub(r' \*Cost:',' '+text.strip()+' *Cost:',body,1)
    if cost: nb=re.sub(r'\*Cost:\* [^.]*s\.','*Cost:* %s s.'%cost,nb)
    s=s[:m.start(1)]+nb+s[m.end(1):]
add('C01','Comments nested 12 million levels deep have to be read without stack.','22')
add('C04','Also gaps of up to 200 000 characters of one kind between two items, and comments nested thousands of levels deep.')
add('C05','Family "long lists": one list of a tree (any kind of list) is grown to 127…65 538 items; imports are only kept in modules with assignments, as the notation is ambiguous otherwise.')
add('C07','Family "every rule": for each rule of the grammar a short sentence that uses it, with every item deleted, doubled or exchanged with the next, and characters within items deleted, doubled and separated. Family "large": lists of up to 70 000 items and nestings with one mistake at the beginning, in the middle or at the end, where the verdict follows from the same mistake in a small text.','30')
add('C08','Family "far down": the line number has to stay right beyond lines 65 536 and up to a million.','15')
add('C09','Writers with existing content and with the optional methods of files (Seek, Truncate, WriteString, ReadFrom) are among those monitored.')
add('C12','Tag numbers up to 2^63-1.')
add('C14','UNIVERSAL tags count like all others.')
add('C15','Families "two planted" and "many planted" (up to 300 distinct missing types, each of which has to be named).','8')
add('C16','Chains of up to 514 references (1 500 in the thorough tier).','45')
add('C17','Modules and trees are edited between two generations of one generator; processes run with other environment (TZ, LANG, HOME, none at all) and working directory, and the output must not contain marks of the day, host or directory.','12')
add('C19','Modules with 1, 255, 256, 257, 512… errors: the exit status must not be a count that wraps.','8')
add('C20','Lines longer than 64 kB, gaps of any width, dumps of some megabytes. The test of a closed pipe first waits until a write gives EPIPE, so that it does not depend on timing.')
add('C23','Also lists in order, reversed and in the order of letter case, and lists that are edited between two lookups.','9')
add('C27','Family "large": lists of up to 70 000 items and deep nestings of every recursive rule.','17')
add('C02','Readers of which a part was read before (files, strings, buffers, sections) give the rest.')
add('C05','Family "scripts": names of letters and digits from all of Unicode.')
add('C07','Family "digits": numbers in digits of other scripts are no numbers.')
add('C12','Implicit tags in front of tags, which they replace; an explicit tag in front of a tag is a known finding.')
add('C13','Components with several tags, all but the last implicit.')
add('C16','Chains of names that differ in letter case only.')
add('C01','Family "long separators": white space, line comments and block comments of up to 16 million characters between two items. Family "kept memory": after many parses neither the heap nor the number of goroutines has grown.')
add('C02','Files that are rewritten with the same size and modification time; family "large": texts of up to 10 MB through all entry points.')
add('C03','Readers dressed with the optional methods (WriteTo, ReadByte, Seek, Len…). More kinds of errors: wrapped io.EOF, EINTR, temporary and timeout errors, io.ErrUnexpectedEOF, io.ErrClosedPipe. Family "files": a reset socket, a pipe past its deadline, a closed file, a directory, a file whose reads fail.')
for _c in ('C10','C11','C12','C14','C15','C16','C22','C25'):
    add(_c,'One module in 60 is a deep one: structs nested in structs, CHOICEs in CHOICEs and references of references, up to 258 levels.')
add('C06','Literals of up to 16 000 digits, and up to 8 000 leading zeros.')
add('C18','Family "dependent": calls whose readers or writers wait for each other at a barrier, so that a call that needs others to finish first never ends.')
add('C19','Random names of files and environment variables, inputs of more than a megabyte; other files of the directory stay as they were.')
add('C21','Writers dressed with the optional methods (WriteString, ReadFrom, Flush…); 17 kinds of errors (io.ErrShortWrite, EPIPE, io.EOF, temporary…).')
add('C23','Lists of up to 20 000 assignments.')
add('C26','Family "together": files of one directory written at the same time; other files of the directory stay as they were.')
s=s.replace('(/dev/full, closed pipe,','(full device, closed pipe,')
s=s.rstrip()+'\n\n'
s+='''## Limits of runtime monitoring here

Every property is decided by it; `not_applicable` is empty. What it leaves open: it samples. Where the set of cases is small
(every offset of a reader or writer, every single-item edit of a sentence per rule, every byte value of a dump, every place
of an unsupported construct), it is walked through; elsewhere the evidence files count the distinct cases. Sanitizers: the race
detector is used for C18 (and the memory safety of Go by its runtime for all others; there is no cgo and no `unsafe` in the
repository, so that memory sanitizers have no subject). Schedules are those of the Go scheduler under stress with yields in readers
and writers; there are no locks or channels in the repository whose interleavings could be enumerated.

## Decisions and false alarms

Alarms on the unchanged tree that turned out to be wrong, and what was done:

* C16 compared types by printing them; recursive types never ended. They are compared coinductively.
* C26 wanted a symbolic link at the target to survive; os.WriteFile follows it and nothing promises more. Removed.
* C13 wanted values that encoding/asn1 itself cannot carry: see the section; such values are left out and counted.
* C24 wanted lists of `interface{}` to be decoded (encoding/asn1 does not do it) and nil `interface{}` parameters to be encoded; the first are left out, the second are filled in.
* C03 fed endless empty reads; `bufio` gives up on those by itself, but late: now bounded numbers of them, then a failure. Readers that break the contract of io.Reader and short writes without an error are not used.
* C12 asks nothing of a component with a UNIVERSAL tag on a referenced type, encoding/asn1 has no way to say it.
* C15, C09: alternatives of a CHOICE that is represented as a whole are not looked into by the generator, and NULL in them is no error. The statement of C15 says so.
* C20: a closed pipe was sometimes still open for reading when ws2bin started. The check waits for EPIPE.
* C05 "long lists": IMPORTS lists in modules without assignments are ambiguous for the layout that was used; only with assignments.
* C02/C18: errors that contain addresses are compared after addresses are normalised.
* A panic of the harness while it interprets a result counts as a violation: on the unchanged tree it never happens, and otherwise it is the changed code that made an impossible result.
* Two grammars: `wide` (X.680 as far as read) for recognising, and `implemented` (less the limits that the README documents) for what must be accepted, so that neither a repair of a documented limit nor the limit itself is an alarm.

## Containment, and damage that was done

All checks but C13, C14, C24 and C25 run their worker, and with it the code under test and the commands, as user and group 65534 (`Unprivileged` in the harness), who owns
nothing but a scratch directory below /tmp. Those four compile generated code with the Go toolchain, whose cache belongs to root, and call
functions of the code under test that are given readers and writers in memory only.

This was not so from the beginning. C26 passed `/dev/full` to MarshalToFile as root, in order to see what it does with a failing device, and a planted
bug (`C26-remove-on-error`: remove the file if the value cannot be encoded) then removed /dev/full of the sandbox in which this was written at first. Writes that
came later made it a regular file. It was reported, and the work went on in a fresh sandbox, where /dev/full is the device that it should be. What changed: no check passes a path outside of its scratch directory to code under test any more. C26 uses a FIFO whose reader takes some
bytes and closes instead. C19 and C20 open /dev/full themselves, as standard output only, and only if it is the character device (1, 7); else
C19 leaves that failure out and C20 takes a closed pipe.

## Known findings

`known-findings.txt` lists them with the input. C10 recursive-sequence and recursive-sequence-of: Go has no finite type for these, and
encoding/asn1 no pointers; a repair would need a design decision. C13 nested-set-of: encoding/asn1 has no parameter for elements; generated
code would need named types with the suffix SET. C12 explicit-on-tagged: encoding/asn1 has no notation for an
explicit tag on a type with a tag of its own; the generated tag has both, of which it uses the second. All others (`fixed:`, 29) were repaired in `/repo`, each with its own commit.

## How the machinery was tested

**Planted bugs.** `seeded/` holds bugs written from the statements and the code, each with its demonstration. The check of the named property
catches each of them unless the table says otherwise ("first missed" led to the strengthening named).

| planted | needs | caught by |
|---|---|---|
'''
first={'C02-rewind':'readers of the rest of a text','C05-caseless':'"scripts"','C07-unicode-digits':'"digits"','C16-fold-visited':'chains that differ in letter case','C01-nested-comment-stack':'"nested comments"','C08-line-width':'"far down"','C16-deep-chain':'"long chains"','C19-exit-count':'"many problems"','C23-cached-index':'"changed"','C23-sorted':'ordered lists','C17-memo':'','C17-dated':'marks of the day','C20-gap-in-line':'wide gaps','C20-scanner':'long lines','C15-many-errors':'"many planted"','C11-many-components':'wide lists','C14-universal-tag':'UNIVERSAL tags','C27-stack-limit':'"large"','C05-word-limit':'names of up to 5 000 characters','C04-comment-depth':'deep comments in layouts',
'C02-file-cache':'files rewritten with the same size and time',
'C02-file-limit':'"large"',
'C03-writer-to':'dressed readers',
'C03-wrapped-eof':'more kinds of errors',
'C01-separator-stack':'"long separators"',
'C01-kept-results':'"kept memory"',
'C11-nesting-limit':'deep modules',
'C12-choice-hops':'deep modules',
'C14-tag-behind':'deep modules',
'C19-gopackage':'environment variables',
'C19-input-limit':'inputs beyond 1 MB',
'C21-string-writer':'dressed writers',
'C21-broken-pipe':'more kinds of errors',
'C23-first-4096':'lists up to 20 000',
'C26-temporary-name':'"together"',
'C18-slots':'"dependent"'}
D='/verif/seeded/'
for d in sorted(os.listdir(D)):
    m=json.load(open(D+d+'/meta.json'))
    s+='| %s | %s | %s%s |\n'%(d,m['needs'].replace('|','/'),m['property'],', first missed: '+first[d] if first.get(d) else '')
s+='''
A few touch code that a `fix:` commit added (C06-fraction-digits, C08-eof-cause, C27-exception-sign): vcheck does not count those, they are kept as they are.

**Fixes reverted.** Each `fix:` commit that can be reverted alone (21 of 29, when this was tried with 28 of them; the lines of the others were changed again by later fixes) is reported, when reverted, by the check that it is listed under.

**Mutants.** About 500 mutants of `codegen.go`, `ast.go`, `lexer.go`, `parser.go` and the commands (operators, constants, conditions, deleted statements) and 289 of
`y.go` (actions and tables), those that compile and pass the tests, against the checks concerned; and 1 024 mutants of the grammar
(alternatives dropped, terminals exchanged, omitted or doubled in an added alternative) against C27, C07, C05. Survivors were judged one by one; those
that were not equivalent led to new families ("every rule" in C07, "derived" in C05, "any items" in C08, trees made by hand in C28). What survives now is
equivalent: rules that yacc never reduces, alternatives that another rule derives as well.

**Changes that keep the behaviour.** Two large sets of refactorings (functions extracted and inlined, loops rewritten, switch for map, lexer with other buffering,
errors built in other ways, files split, generator with other order of helper declarations) leave all checks quiet, with several seeds.
'''
open(p,'w').write(s)
