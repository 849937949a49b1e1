#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
REAL = "every case is an execution of the real, freshly built program or library; nothing is sampled; "
C = {}
def c(id, level, technique, note): C[id] = (level, technique, note)
c("C01","exploration","bounded exhaustive enumeration of inputs and transport behaviours against an independent decoder","Real Reader on every header of a boundary alphabet (thorough: all 2^32), all legal lengths, all packet sequences and all read-split/interrupt patterns within bounds, compared with a decoder written from the format. Trusts the in-memory transport.")
c("C02","exploration","bounded exhaustive enumeration of packet x buffer x split sequences against an independent decoder","Real io::Read implementation on all short packet sequences over boundary sizes, all short caller-buffer sequences and all split/interrupt patterns.")
c("C03","exploration","bounded exhaustive enumeration of write sequences x sink behaviours, round-trip oracle","Real Writer on all sizes around the chunk boundaries, all short operation sequences and partial-write/interrupt patterns; output judged by an independent decoder.")
c("C04","exploration","exhaustive enumeration of request sequences run on the real server, response-stream oracle","All sequences to a depth over well-formed and malformed requests in both modes, with the requests cut into packets in several ways; the response stream is parsed independently, and state effects of request content are looked for on disk.")
c("C05","exploration","exhaustive enumeration of cut points and framing faults of sessions on the real server","Every byte position at which a session can be cut, and framing damage at every packet; store and answers are compared with the prefix of whole requests.")
c("C06","exploration","exhaustive enumeration of uploads (ID, size, content, packetization) with a store oracle","Real server; the complete store is compared before and after.")
c("C07","exploration","exhaustive enumeration of objects around buffer boundaries with a content oracle","Real server; all object sizes around every buffer and packet boundary and several contents.")
c("C08","exploration","exhaustive enumeration of batch and verify requests with a store oracle","Real server; all combinations of present/absent/size/argument/malformed within bounds.")
c("C09","model_checking","explicit-state exploration of a sequential model; every model transition replayed on the real server","The reachable states of the model within the bounds are enumerated; every transition is executed on the real server from a repository in that state, and responses and the resulting store must be the model's.")
c("C10","exploration","exhaustive enumeration of requests in every session mode with store and disclosure monitors","Real server in every mode and with every listed operation name; the store must not change (download) and no object content may appear (upload).")
c("C11","exploration","exhaustive enumeration of hostile names under a system-call monitor","Real server run as an unprivileged user in a scratch directory; every path-taking system call is observed with ptrace and judged against an allow-list; decoy files around the store must stay as they are.")
c("C12","model_checking","exhaustive crash-point exploration of the real server under a system-call scheduler (including torn writes)","Every point between visible system calls, and every torn write class, of every listed upload scenario; states deduplicated by store content and process position; recovery sessions run from every distinct crashed store. Process death only, not power loss.")
c("C13","model_checking","explicit-state exploration of all interleavings of real server processes under a system-call scheduler","All interleavings of the visible system calls of two or three real processes, with state deduplication; each answer is judged for consistency with the object store history. System calls are taken as atomic.")
c("C14","fault_enumeration","systematic fault injection at every file-system call of the real server","Every file-system call of every listed session is made to fail with every plausible errno, or cut short, or interrupted, singly; thorough adds pairs. Answers, store and later requests are judged.")
c("C15","exploration","exhaustive enumeration of sharing policies x umasks x kinds of files","Real server; all listed spellings of core.sharedRepository, all umasks of interest, both fresh and existing directories.")
c("C16","model_checking","explicit-state exploration of all interleavings of real server processes, linearizability oracle","All interleavings of visible system calls of two or three real processes that lock and unlock, state deduplication, every terminal history checked for linearizability against the lock model. System calls are taken as atomic; processes have distinct IDs.")
c("C17","model_checking","explicit-state exploration of all interleavings of listers with lockers and unlockers","As C16; every listing is checked against the interval semantics of the locks' lifetimes. The order in which a directory is read is the file system's.")
c("C18","exploration","exhaustive enumeration of lock sets x limits x cursors x filters with a paging oracle","Real server; all chains of pages are followed.")
c("C19","exploration","exhaustive enumeration of paths x requests x users with a record oracle","Real server under different users and simulated clocks; all responses about a lock are compared with the one that granted it.")
c("C20","model_checking","exhaustive crash-point exploration of lock and unlock with recovery sessions","Every point between visible system calls and every torn write class; recovery sessions run from every distinct crashed store. Process death only.")
c("C21","exploration","exhaustive enumeration of damaged and foreign lock files x requests","Real server; every truncation and mutation class of a lock file and every kind of foreign file, against all request kinds.")
c("C22","exploration","exhaustive enumeration of commit graphs x date orders x match sets with an independent oracle","Real git-at on all histories of up to 4 (thorough 5) commits; the oracle's order is compared with git rev-list.")
c("C23","exploration","exhaustive enumeration of message sequences x patterns x options with a PCRE2 oracle","Real git-at; trusts PCRE2.")
c("C24","exploration","exhaustive enumeration of outcome classes x options","Real git-at on every outcome class with every combination of options, including damaged repositories, full disks and failing git show.")
c("C25","exploration","exhaustive enumeration of reference sets x targets x layouts with an independent oracle","Real git-recent-refs; the menu of targets is validated against git. One known finding: names that are not UTF-8.")
c("C26","exploration","explicit enumeration of checkout histories of a model; histories validated against real git","All histories to a depth over 16 operations; the model's reflogs are compared with those real git writes. One known finding: names that are not UTF-8.")
c("C27","exploration","exhaustive enumeration of error kinds x conversion chains","Real scutiger-core; all kinds, payloads and chains up to a depth.")
c("C28","exploration","exhaustive enumeration of pager settings x pager behaviours x output sizes on a pseudo-terminal","Real git-recent-refs on pseudo-terminals with real pagers run by the shell; that it waits is seen by a mark the pager leaves at its end.")
c("C29","exploration","exhaustive enumeration of pairs of repository names, environments and non-repositories with a store model","Real git-lfs-transfer on repositories made by git (bare, with linked worktrees, separate git directory, submodule); all files around the store are compared before and after.")
c("C30","exploration","exhaustive enumeration of repositories x command lines x failing outputs","Real git-recent-refs; the list it must print is known by construction, and outputs fail at every size of interest.")
c("C31","exploration","exhaustive enumeration of sessions x cut points x framing faults x failing outputs x unusable stores with an outcome oracle","Real git-lfs-transfer; exit status, standard error and standard output of every run are judged.")
c("C32","exploration","exhaustive enumeration of kinds of requests x repetition and size within measured resource limits","Real git-lfs-transfer; the least limits for a short session are found by search, and the long one, judged request by request against the model, runs within them.")
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks = []
for p in props:
    if p["id"] not in C: continue
    l, t, n = C[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=t, level=l, level_note=n))
json.dump(dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=[],
  notes="No hooks in /repo: the unmodified programs run under a ptrace-based scheduler, fault injector and monitor (mc), or are called as a library (mclib), or as programs on generated repositories (mcgit)."),
  open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks))
