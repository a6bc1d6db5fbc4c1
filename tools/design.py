import json
import os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
man={c['property']:c for c in json.load(open(V+'/MANIFEST.json'))['checks']}
chk=json.load(open(V+'/checks.json'))
how={
'C01':("System = real vt_vec_t + std::vector<bytes> model. BFS with history replay on fresh objects, key = (capacity, contents); then every sequence of <=N operations without merging; then length sweeps across growth boundaries.","lock-step ideal sequence; capacity memory probed with ASan's poisoning map; typed accessors compared with generic ones","3 s / minutes"),
'C02':("Same explorer over vt_plist_t with pointers that may never be dereferenced (fault if they are).","ideal pointer sequence","3 s"),
'C03':("BFS + all sequences over every editing operation of vt_str_t; boundary sweep over all lengths for set/append/insert/remove/format.","std::string; terminator, capacity and backing memory checked after each step","10 s"),
'C04':("All (operation, text, pattern, replacement) tuples over small alphabets - this is the whole behaviour of a byte-scanning algorithm up to renaming of letters.","naive reference implementations on std::string","8 s"),
'C05':("All texts/separators/delimiters/piece lists, with and without destination and allocator.","reference splitter/joiner","8 s"),
'C06':("All strings over one representative per character class, all 1- and 2-byte strings.","ctype-independent reference","6 s"),
'C07':("Cursor automaton: BFS over (container contents, cursor), then all sequences; visited addresses are the observation.","position counter model","5 s"),
'C08':("A catalogue (harness/catalog.hpp) of every allocating operation; all sequences; malloc/calloc/realloc/free of the library are redirected to a recording seam, allocators are recorded separately.","set of live blocks per source; zero left after destroy; no libc request while operating on an object that has an allocator","8 s"),
'C09':("All histories over the accounting allocator with a set model of live blocks.","sums and set of live blocks; block contents patterns","8 s"),
'C10':("Every operation x every precondition boundary; exit/abort/assert of the library are redirected to a longjmp seam, so thousands of 'deaths' run in one process. Memory of every object is snapshotted before and compared after the stop.","stopped with failure status + snapshot equality; the in-contract neighbour must return","38 s"),
'C11':("All buffers x windows x indices x element sizes; view operations over all short texts.","parent memory image; allocation events must be zero","8 s"),
'C12':("For every catalogue sequence: run once to count requests, then once per request index with that request failing.","must stop with failure status, no ASan report, objects that existed before unchanged where the operation had not started to change them","8 s"),
'C13':("All 8/16-bit values, boundary values of wider types, all short texts, all buffer sizes.","snprintf/strto* with wide types","22 s"),
'C14':("All argument vectors over a token alphabet; all typed values in all forms.","reference parser written from the documentation and code","10 s"),
'C15':("Every day of the bounded range x times x zones (POSIX TZ strings, no tzdata needed).","days-from-civil arithmetic and a closed-form DST rule, independent of libc","9 s"),
'C16':("Every day/second in the bound for writing+reading; every corruption of valid texts for validation.","reference formatter and position-wise validator; exact-size heap buffers under ASan","9 s"),
'C17':("Every day/half hour in zones; delta products; all pairs of base dates.","civil arithmetic + DST rule","9 s"),
'C18':("All histories of file operations over small contents on a real scratch directory.","map name -> bytes; open-handle count","12 s"),
'C19':("Every write operation x medium full after each byte k (cookie stream / RLIMIT_FSIZE / /dev/full), open and close failure.","success reported <=> the file holds everything","17 s"),
'C20':("All paths over small alphabets, all segment lists, home directories, readlink/getcwd answers through the seam.","reference path functions","8 s"),
'C21':("All small trees (real files, directories, links) x operations x targets; histories; each system removal/creation refused in turn. Destructive calls are intercepted: a target outside the scratch directory is not executed and is reported.","twin tree model and direct stat/readdir of the scratch directory","38 s"),
'C22':("All redirection histories x messages on real files with standard error captured.","destination model: exact bytes of every file","12 s"),
'C23':("All 8-bit tuples, boundary tuples, all small numbers, constructed palindromes, float grids.","exact integer/long double arithmetic","4 s"),
'C24':("The system calls are replaced by a scripted kernel; every answer vector is enumerated and every call is recorded; a second part holds real TCP/UDP conversations on the loopback, binding the scripted kernel to reality.","expected status, call sequence, descriptor set, bytes","4 s"),
'C25':("The clock is a seam; each seed runs in a forked process because the state is static; all draw orders up to the bound.","range, replay equality, scaling relation between runs","6 s"),
'C27':("All option tables, headers, footers and allocator figures up to the bound are printed with the standard streams captured in files; unrecognised arguments at every position.","reference formatter written from the documented layout; table and destinations compared before and after","9 s"),
'C26':("All shapes/indices, sizes, overlaps, bit flips, status codes.","row-major counting, byte images","3 s"),
}
o=[]
w=o.append
w("""# Design

## What this is

Every property is decided by **exhaustive enumeration of bounded spaces of executions of the real code** (explicit-state
BFS with history replay, stateless enumeration of all operation sequences, exhaustive input products, exhaustive fault
points). No sampling, no solver. The library is small, sequential C without threads; its state spaces (containers,
allocator, file system, descriptor table, redirection tables, calendars) are the thing to explore, so model checking
the implementation directly, in lock-step with a reference model, is feasible and needs no separate model-to-code
conformance argument: every model transition *is* a replay on the implementation (each explored trace is executed on
both sides and compared after every step).

## Machinery

* `tools/check.py ID quick|thorough` compiles every `/repo/src/**/*.c` of the current working tree (gcc, ASan, asserts
  on), redirects the environment symbols listed in `harness/redirect.syms` with `objcopy --redefine-syms` (allocation,
  termination, clock, sockets, files, directories), links `harness/rt.cpp` + `harness/cNN.cpp`, runs it in a scratch
  directory it creates and removes, writes `evidence/ID.json`. No hook is needed in /repo. Objects are cached by content hash in
  `/verif/build` (ignored by git), so a change of any source or header is always seen.
* `harness/rt.cpp`: job scheduler (one forked process per shard, all cores), counters and distinct-outcome table in
  shared memory, hang detector (25 s per explored step), crash/ASan capture, termination seam (`exit`, `abort`, `assert` become a
  return value inside `guard`, and a violation outside of it), allocation seam (live set, k-th request fails), stream
  and directory handle tracking, containment of destructive file calls. A failing job is re-run alone and a violation
  is reported only if it reproduces; the replay file names the job and the failing execution
  (`python3 tools/check.py ID --replay FILE`).
* `harness/space.hpp`: the BFS / all-sequences explorer. `harness/strutil.hpp`, `catalog.hpp`, `fileops.hpp`, `cal.hpp`:
  oracles and operation catalogues shared by several checks.
* `tools/gen.py` holds the table of properties and writes `properties.jsonl`, `MANIFEST.json`, `checks.json`.
* `tools/setup.py` (setup_cmd) prebuilds the objects. Checks do not depend on it.

Judged is only what a caller can observe (return values, contents, capacity contract, memory safety, allocation
balance, files, process outcome). Growth policy, number and size of internal allocations, order of independent
internal steps, wording of diagnostics (apart from the layout of the help listing and of the allocator report, C27) and exact floating-point rounding are not asserted, so refactorings stay quiet.

Exit codes: 0 held; 1 + `VIOLATION property=.. replay=..`; 2 the check could not run (tree does not compile).

## Properties

All 27 are decided by this family; `not_applicable` is empty.
""")
for p in props:
    h=how[p['id']]; c=chk[p['id']]; m=man[p['id']]
    w("### %s %s\n"%(p['id'],p['title']))
    w("* explored: "+h[0]); w("* oracle: "+h[1]); w("* quick bounds: "+c['bounds_quick']); w("* thorough bounds: "+c['bounds_thorough']); w("* cost (quick, 8 cores): about "+h[2])
    w("* beyond the tests: "+p['why_tests_cant']); w("* limits: "+m['level_note'].split(' Trusted:')[0]+"\n")
import os
res=json.load(open(V+'/tools/seed_results.json')); t=['| bug | property | needs | caught by |','|---|---|---|---|']
for i in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(V+'/seeded/%s/meta.json'%i)); r=res.get(i)
    t.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'].replace('|','/'),('%s quick'%m['property'] if r['caught'] else 'MISSED') if r else 'not run'))
w(open(V+'/tools/design_tail.md').read().replace('@SEEDS@','\n'.join(t)+'\n'))
open(V+'/DESIGN.md','w').write("\n".join(o))
