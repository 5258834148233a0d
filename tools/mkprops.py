#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(obs),hook_needed=None)))
S="src/crashmail/"
p("C01","Tossing never loses mail, whatever fails and wherever it is killed",
 "An inbound packet or bundle is removed only after everything that tossing it produces has been completely stored: message-base imports, packets queued for every link that should get it, bad-area copies. If a toss is hit by any I/O error, full disk, failed memory allocation, failed packer, Ctrl-C or kill, then once the fault is gone and the toss is run again every message has reached every destination that a fault-free toss would have used, or its packet is still kept in the inbound directory (possibly as .bad).",
 ["inputs","crash_points","fault_sequences","histories","configurations"],
 "every inbound content and configuration, every single or multiple fault at any system call or allocation, every kill or Ctrl-C point, followed by any number of reruns",
 "The tests run one fault-free toss; no error path, interrupted run or rerun is ever executed.",
 [S+"toss.c",S+"pkt.c",S+"scan.c",S+"safedel.c",S+"outbound.c",S+"dupe.c","src/oslib_linux/osfile.c"],
 [("deferred deletion of inbound files until success","safedel.c SafeDelete/ProcessSafeDelete, AfterScanToss"),("ioerror/nomem/ctrlc flags abort the toss and mark it unsuccessful","toss.c TossDir, pkt.c"),("temporary names for unfinished packets","pkt.c CreatePkt/FinishPacket"),("retry of unarchived packets","outbound.c ArchiveOutbound")],
 [("delete list","inbound files to remove after success","safedel.c"),("ioerror, nomem, ctrlc","global failure flags","crashmail.c")],
 ["inbound directory","outbound directory and flow files","message bases"])
p("C02","Each echomail message goes to exactly the links that should get it",
 "In a fault-free toss or scan, each echomail message accepted into an area is sent exactly once to every linked system that is neither the system it came from, nor passive, nor write-only in that area, nor (when enabled for the area) already in the message's SEEN-BY, and to nobody else; and it is stored exactly once in the area's message base if it has one and the message came from outside. Messages from systems not linked to the area or linked read-only, for unknown areas, or for areas awaiting confirmation go to the bad area and to nobody else (unknown areas are instead created and active when the sender may auto-add), unless checking is disabled.",
 ["inputs","configurations","histories"],
 "every set of areas, links, link modes and flags, every mix of messages in packets and bundles, over sequences of tosses",
 "One area/link combination is exercised by tests; the combination space of flags, links, SEEN-BYs and histories is not.",
 [S+"handle.c",S+"pkt.c",S+"toss.c"],
 [("fan-out loop with exclusion rules","handle.c HandleEchomail"),("security check of the link","handle.c HandleEchomail"),("auto-add","handle.c AddArea"),("packet per destination and type","pkt.c WriteEchoMail")],
 obs=["queued outbound packets per link","message bases"])
p("C03","Forwarded echomail is transformed only as FTS-0004 and the config say",
 "A message forwarded to a link keeps its date, names, subject, attributes for echomail, kludges and body text byte for byte, with the area line first, and is addressed from the area's address to the link. Its SEEN-BY equals the incoming SEEN-BYs (dropped when crossing zones) plus the receiving links, the configured additions and our own address, minus the configured removals, sorted and without duplicates (or the tiny/none form if set for the link); its PATH equals the incoming PATH followed by our address unless already last.",
 ["inputs","configurations"],
 "every message content (any length, line structure, SEEN-BY/PATH size), every area address and link configuration",
 "Tests check one small message; line wrapping, chunk boundaries, big SEEN-BY sets and cross-zone links are not sampled.",
 [S+"handle.c",S+"memmessage.c",S+"pkt.c",S+"misc.c"],
 [("SEEN-BY/PATH parsing and generation","memmessage.c"),("message writer","pkt.c WriteMsg/WriteEchoMail"),("text chunk buffer","memmessage.c mmAddBuf")],
 obs=["bytes of packets queued for links"])
p("C04","Duplicate echomail is detected exactly within the configured window",
 "An echomail message with a MSGID whose MSGID/area pair was tossed earlier, in this or any previous completed run, and is among the most recent pairs the duplicate file is configured to hold, is not forwarded or stored in its area again but dropped or put in the bad area as configured. A message that is not such a duplicate is never treated as one: no MSGID, same MSGID in another area, areas excluded from checking, and messages whose earlier toss did not complete are all processed normally.",
 ["histories","inputs","crash_points","configurations","fault_sequences"],
 "every sequence of tosses, repeats and evictions, any MSGIDs, any fault or kill in between",
 "No test tosses the same message twice; eviction, restart and interruption histories are never sampled.",
 [S+"dupe.c",S+"handle.c",S+"crashmail.c"],
 [("persistent ring of CRC+MSGID+area","dupe.c OpenDupeDB/CheckDupe/CloseDupeDB"),("dupe mode handling","handle.c HandleEchomail")],
 [("duplicate file","entries {size,crc,msgid,area}","dupe.c")],
 ["duplicate file","outbound","message bases"])
p("C05","Bad packets are kept byte for byte, good ones are not quarantined",
 "A packet or bundle that cannot be processed (not a type-2 packet, wrong password, not for us when that is checked, truncated or malformed, unknown archive type, failing to unpack) is kept under its name with .bad appended in the inbound directory, byte for byte, without overwriting any earlier bad file, and never silently deleted. No byte sequence as inbound file makes the tosser crash, hang or damage other mail, and packets that are well formed and authorised are never renamed bad, also when interrupted.",
 ["inputs","crash_points","fault_sequences","histories"],
 "every byte sequence as packet or bundle, every password/AKA configuration, any earlier .bad files, interruption at any point",
 "The test suite feeds only well-formed packets.",
 [S+"pkt.c",S+"toss.c",S+"misc.c"],
 [("header, password and framing validation","pkt.c ReadPkt"),("quarantine rename with unused suffix","misc.c/toss.c BadFile"),("bundle handling","toss.c TossBundle")],
 obs=["inbound directory"])
p("C06","Every netmail ends up in exactly one right place",
 "In a fault-free toss or scan each netmail is either imported into the netmail area responsible for its destination address (unless empty and so configured, or consumed by the local AreaFix), or sent exactly once to the system and with the flavour that the first matching route, change, point/boss and packing rules give, or put in the bad area when nothing matches; it is never both imported and sent, duplicated or dropped. Addresses including points and zones are preserved in the packet (INTL/FMPT/TOPT intact or added where needed) and a Via line is appended when it passes through.",
 ["inputs","configurations"],
 "every address/attribute combination, every ordered route and change table, all AKAs and netmail areas",
 "Tests send one netmail; route order, patterns, attributes and zones are not sampled.",
 [S+"handle.c",S+"node4dpat.c",S+"pkt.c",S+"outbound.c"],
 [("netmail disposition","handle.c HandleNetmail/HandleRouted"),("route pattern matching and expansion","node4dpat.c"),("netmail writer","pkt.c WriteNetMail")],
 obs=["netmail message bases","outbound queue with flavour"])
p("C07","Every local message is exported exactly once, at least once under faults",
 "A locally written, unsent message in a scanned area is exported exactly once over any number of fault-free scans, and afterwards is marked sent in the base (or deleted if kill-sent asks for it); messages that are not local or already sent are never exported. If a scan is hit by a fault, Ctrl-C or kill, a later scan still exports every message that had not been queued, so none is lost.",
 ["histories","crash_points","fault_sequences","configurations","inputs"],
 "every interleaving of writing messages and scanning, every base type and highwater setting, every fault/kill point",
 "Tests run a single scan at most; interrupted scans and repeated scans are not covered.",
 [S+"scan.c",S+"mb_jam.c",S+"mb_msg.c",S+"handle.c"],
 [("sent attribute and highwater mark","mb_msg.c msg_ExportMSGNum, mb_jam.c jam_ExportJAMNum"),("packets kept until archived","pkt.c, outbound.c")],
 obs=["message bases","outbound queue"])
p("C08","The outbound queue stays consistent with mailers running and locks held",
 "Every file a flow file names for transfer exists with complete content until the mailer takes it, every bundle and packet queued for a system is named in exactly one flow file entry of that system, and nothing queued earlier is overwritten, truncated or dropped by later runs. While a system is locked by a mailer nothing of that system's queue is touched, its mail and the files attached to it are kept and queued by a later run after the lock is gone; lock files are created exclusively and removed again by their owner only.",
 ["schedules","histories","fault_sequences","crash_points","configurations"],
 "every interleaving with mailers holding locks and picking up mail, every packer failure, any flavour and zone, over sequences of runs",
 "Tests do not run a mailer, hold locks or let a packer fail.",
 [S+"outbound.c",S+"pkt.c",S+"misc.c"],
 [("busy lock","outbound.c LockBasename/UnlockBasename"),("retry of packets that could not be packed","outbound.c ArchiveOutbound (.pkttmp)"),("flow file update","outbound.c AddFlow")],
 obs=["outbound directories"])
p("C09","Only one instance works with a configuration at a time",
 "Two runs with the same configuration never overlap: the second one says that the configuration is locked and waits, trying again every ten seconds and changing nothing, until the lock is gone; Ctrl-C ends the waiting with an error and leaves the lock of the other run alone. The lock is held until the run's last change to any of its files, and is gone after every ending of the run other than a kill, including errors in start-up. LOCK and UNLOCK take and release it for scripts.",
 ["schedules","crash_points","fault_sequences","configurations"],
 "every interleaving of two or more instances, every way a run can end",
 "Tests run one instance at a time.",
 [S+"crashmail.c",S+"misc.c",S+"areafix.c"],
 [("config lock file","misc.c LockConfig/UnlockConfig, crashmail.c main/CleanUp")],
 obs=["lock file","all files"])
p("C10","JAM bases stay consistent and lose no message under concurrent use",
 "After any runs of the tosser, the maintenance tool and other JAM users on the same base under any interleaving, the base is well formed: index, headers and text agree, the header's active-message count is right (after a kill or write error it may lag), every message written by anyone is readable with its exact text, and changes happen only under the JAM lock. A kill or write error at any point loses or damages no message that was complete before, and reply links always refer to messages that really are the reply chain.",
 ["schedules","crash_points","fault_sequences","inputs","histories"],
 "every interleaving of writers, every kill point, every message content",
 "Tests import one message into a JAM base, alone.",
 ["src/jamlib/mbase.c","src/jamlib/message.c",S+"mb_jam.c"],
 [("byte lock on the header file","mbase.c JAM_LockMB/JAM_UnlockMB"),("append order text, header, index, base header","message.c JAM_AddMessage"),("reply linking","mb_jam.c jam_linkmb")],
 obs=[".jhr/.jdt/.jdx files"])
p("C11","*.msg bases never overwrite a message and store it faithfully",
 "Storing a message in a *.msg area creates a new file with a number higher than any existing message and never changes another message; names, subject, date, attributes, addresses and text survive unchanged both into the base and out again on export. Number 1 is reserved for the highwater mark, which never goes beyond an unexported message. A kill may leave at most the one message being written incomplete.",
 ["inputs","histories","configurations","fault_sequences"],
 "every set of existing files, every message, repeated runs, faults",
 "Tests import one message.",
 [S+"mb_msg.c"],
 [("lowest/highest number scan","mb_msg.c msg_getlowhighmsg"),("writer/reader","mb_msg.c msg_importfunc/msg_ExportMSGNum")],
 obs=["*.msg files"])
p("C12","Maintenance deletes exactly what the limits say and damages nothing else",
 "Maintenance by number or age of an area (KEEPNUM, KEEPDAYS of that area in the configuration) removes *.msg messages, or marks JAM messages deleted, exactly beyond the configured limit, oldest first; packing physically removes exactly the deleted JAM messages and renumbers *.msg messages from 2 without changing their order. All other messages keep text, headers and attributes, JAM messages also their numbers, so that reply links and last-read pointers still refer to the same messages, and the *.msg highwater mark never goes beyond a message that has not been exported. A kill, write error or failed allocation during maintenance never loses or changes a message that was to be kept, and messages that another program adds to a JAM base under its lock during MAINT are kept. (Packing needs the base to itself, as the program has to replace its files.)",
 ["inputs","histories","crash_points","fault_sequences","schedules","configurations"],
 "every base content, limit and age, both base types, kill and fault at any point, concurrent JAM users",
 "There is no test for the maintenance tool.",
 ["src/tools/crashmaint.c","src/jamlib/mbase.c","src/jamlib/lastread.c"],
 [("delete by number/days, renumber, pack with temporary files","crashmaint.c")],
 obs=["message bases"])
p("C13","Statistics count exactly what was tossed",
 "For every confirmed echomail, netmail and bad area the total, the dates of the first and last message and the number of duplicates, and for every link the numbers of echomails and netmails received and sent, their bytes and the duplicates equal what really happened in all completed runs, and the eight-day history shifts by exactly the days the clock advanced, whatever gaps or backward steps there are between runs. crashstats shows exactly these numbers, in the order and for the groups asked for, and changes nothing. A failed or killed run leaves the old or the new statistics, which later runs and crashstats can read.",
 ["histories","inputs","crash_points","fault_sequences"],
 "every sequence of runs, clock movements and faults",
 "The test only prints a fixed statistics file.",
 [S+"stats.c",S+"handle.c",S+"scan.c","src/tools/crashstats.c"],
 [("day rotation and file write","stats.c ReadStats/WriteStats, scan.c/handle.c counters")],
 obs=["statistics file","crashstats output"])
p("C14","Rewriting the configuration is atomic and preserves everything else",
 "When area subscriptions change or areas are added, the configuration file is rewritten so that only the affected area definitions change: every other line, comment and setting keeps its content and order (empty lines may go), re-reading gives exactly the intended state, and the previous version is kept as backup. At every instant, whatever fails or is killed, the configuration name refers to a complete old or complete new version.",
 ["inputs","crash_points","fault_sequences","configurations"],
 "every configuration file, every set of changes, every kill or fault point",
 "One AreaFix test exists; comments, unusual keywords and interrupted rewrites are not tested.",
 [S+"config.c",S+"areafix.c"],
 [("copy with replaced areas to a temporary file then rename","config.c UpdateConfig")],
 obs=["configuration file and .bak"])
p("C15","AreaFix changes only what the sender may change, exactly as asked",
 "A remote request takes effect only if it comes from a configured system with the right AreaFix password, affects only that system's own links, and only for areas of groups the system may access, respecting mandatory, banned and default-read-only settings. Each +/-/= area command, wildcard and option changes exactly the named links, the reply reports what was done, rescans resend the requested messages only to the requester, and requests for unknown areas are forwarded only to systems allowed to feed them.",
 ["inputs","histories","configurations"],
 "every request text, password, group and flag setting, sequences of requests",
 "One test adds an area; authorisation, patterns, groups and sequences are not sampled.",
 [S+"areafix.c",S+"config.c"],
 [("password and group check","areafix.c AreaFix/AddCommand"),("link add/remove","areafix.c")],
 obs=["configuration file","reply netmail"])
p("C16","No two packets, bundles or flow entries ever share a name",
 "Packets and bundles that exist at the same time never get the same name, and creating one never overwrites another, also when the clock stands still or jumps back, runs follow each other within a second, or more packets are made in one run than a name counter can hold. Bundle names for a system continue their sequence and only reuse a name when the earlier bundle is gone.",
 ["histories","schedules","inputs"],
 "every clock behaviour and every number of packets and runs",
 "Names depend on clock and serials; tests see one packet.",
 [S+"pkt.c",S+"outbound.c",S+"misc.c"],
 [("time+serial names with existence check","pkt.c CreatePkt"),("bundle suffix choice","outbound.c MakeArcName")],
 obs=["outbound and packet directories"])
p("C17","Mail keeps its order",
 "Packets are processed oldest first, and for every link and every message base the messages of an area arrive in the order in which they came in (packet order, then order within the packet, or message number when scanning), also when packets are split at the size limit or mail had to be retried.",
 ["inputs","histories","configurations"],
 "every set of inbound files with any times, any directory order, any size limits",
 "Tests use one message; directory order and packet splitting are not varied.",
 [S+"toss.c",S+"pkt.c",S+"misc.c"],
 [("inbound sorted by date","toss.c CompareAlpha/CompareTime"),("append-only packets","pkt.c")],
 obs=["queued packets","message bases"])
p("C18","Interrupted or failed runs leave a state the next run recovers from",
 "However a run ends (Ctrl-C, error, kill at any point, full disk), once the fault is gone and a stale lock of a killed run is removed, the next run starts normally and completes all outstanding work within one more run, with no manual repair of databases, statistics, indexes or temporary files. Ctrl-C ends a run after the current step with locks released, no half-written packet, bundle, database or configuration under its final name, and unfinished temporary packets are never sent.",
 ["crash_points","fault_sequences","schedules","histories"],
 "every kill/Ctrl-C/fault point, every kind of run",
 "No test interrupts a run.",
 [S+"crashmail.c",S+"scan.c",S+"toss.c",S+"dupe.c",S+"stats.c",S+"misc.c"],
 [("ctrlc flag checks","all loops"),("cleanup of leftover temporary packets","scan.c/misc.c BeforeScanToss"),("clean exit path","crashmail.c CleanUp")],
 obs=["exit code","all files"])
p("C19","Filters act exactly on the messages they match",
 "A configured filter performs its commands on exactly the messages that satisfy its expression, in configuration order: killed messages vanish without trace elsewhere, twitted ones are forwarded but not stored, copies, bounces, bad-area copies, remaps and masquerades happen exactly once with the right content and do not alter how non-matching messages are handled. When memory runs out, a copy or a message file for a command cannot be written, or the run is interrupted, the message stays in the inbound and the next run performs the filters on it; it is never passed on as if the filter had not matched and no command is run on an incomplete file.",
 ["inputs","configurations","fault_sequences"],
 "every message and every combination of filters and commands",
 "No test configures a filter.",
 [S+"filter.c","src/shared/expr.c"],
 [("expression evaluation and commands","filter.c Filter")],
 obs=["outbound","message bases"])
p("C20","The tools write what they were told and never clobber what is there",
 "The message writer creates a packet holding exactly the message requested under a name not in use and never changes an existing file, also with several instances in the same second; it leaves no incomplete packet under the final name on failure. The nodelist compiler produces an index by which every node and point in the nodelists, and no other, is found with its own line, whatever order or size the lists have; while it runs, and when it fails, lookups are answered from either the old or the new index. The area-list exporter, the outbound lister and the statistics viewer show what is there and change nothing, and a listing that could not be written completely is reported by the exit status.",
 ["inputs","schedules","crash_points","fault_sequences"],
 "every argument set, text, nodelist, and interleaving of instances",
 "Tests use fixed small inputs, one instance.",
 ["src/tools/crashwrite.c","src/tools/crashlist.c","src/tools/crashgetnode.c","src/cmnllib/cmnllib.c","src/tools/crashexport.c","src/tools/crashlistout.c"],
 [("name by time and serial","crashwrite.c"),("index build","crashlist.c"),("binary index lookup","cmnllib.c")],
 obs=["packets","index file","tool output"])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
