SIM = ("Seeded exploration, not proof: some thousands of simulated runs in the "
       "quick tier. Real code runs unmodified except for shrunken size limits; "
       "scheduling, clock, file system faults and process death are the "
       "simulator's. A crash ends the process (no power failure), memory is "
       "sequentially consistent. ")

prop("D01", "A committed transaction survives any later crash",
     "Once committing a transaction on a stored dynamic index has returned, "
     "everything the transaction appended, annotated and erased is there, "
     "complete and unchanged, every time the index is opened afterwards. This "
     "holds wherever the process is killed later, including during other "
     "transactions, during background compaction, while closing or while "
     "opening the index again.",
     ["crash_points", "schedules", "histories", "configurations"],
     "every history of transactions from any number of clients, every "
     "interleaving with compaction, every point at which the process can die, "
     "repeatedly, and every codec and tokenizer configuration",
     "The tests open and close an index in one orderly process; none of them "
     "kills a process, and a crash point is one of thousands of storage "
     "operations under one of very many interleavings.",
     ["src/bigwig.cc", "src/fiver.cc", "src/hazel.cc", "src/owsla.cc",
      "src/working.h"],
     [("a shard is written to a temporary, then linked under a ready name, then "
       "under its final name", "Fiver::ready_, Fiver::commit_, Fiver::pickle"),
      ("opening sorts out what a dead process left", "sanitize in src/bigwig.cc"),
      ("sources of a merge are removed only after its result is in place",
       "merge_worker in src/bigwig.cc, Hazel::merge")],
     ["text, annotations and queries of a view started after reopening"],
     "size limits of compaction, so that small shards take every path",
     note=SIM + "Every acknowledged transaction must be visible, with exactly "
     "its content, after every restart; 4 crashes are placed per schedule, by "
     "kind of storage operation so that rare ones are not drowned.")

prop("D02", "A transaction is all or nothing",
     "Whatever a reader sees of a transaction, it sees all of it: all its text, "
     "annotations and erasures, or none of them. A transaction that was "
     "aborted, before or after it was ready, or that was never committed, is "
     "never visible to anyone, in this process or after a crash and restart, "
     "and aborting it does not disturb any other transaction; one interrupted "
     "by a crash during its commit is either wholly there or wholly absent, "
     "for good.",
     ["schedules", "crash_points", "histories"],
     "all interleavings of committing, aborting and reading clients, and all "
     "crash points",
     "The tests abort a handful of transactions one at a time, with no "
     "concurrency and no crash.",
     ["src/bigwig.cc", "src/fiver.cc", "src/committable.h", "src/warren.cc"],
     [("content is built in private and becomes reachable by one step",
       "Bigwig::commit_, Fiver::commit_"),
      ("an aborted shard is emptied and removed", "Fiver::abort_, Bigwig::abort_"),
      ("shards that were only ready are discarded when opening",
       "sanitize in src/bigwig.cc")],
     ["text, annotations and queries of started views"],
     note=SIM + "A visible transaction must answer with exactly the content the "
     "model gives it; up to half of the transactions are aborted.")

prop("D03", "A write that storage refuses is never reported as done",
     "If storage fails while an index is being written (no space, an error from "
     "a write, a link, a rename or a close), the operation that needed it "
     "reports failure or the process stops; it never acknowledges a commit or "
     "a setting that is not stored. What was acknowledged earlier stays intact "
     "and readable, now and after restarting, and the index can still be opened "
     "once storage works again.",
     ["fault_sequences", "schedules", "histories"],
     "every storage operation failing with every usual error, once or for as "
     "long as the disk is full, at any point of any history and schedule",
     "No test makes a storage operation fail.",
     ["src/fiver.cc", "src/hazel.cc", "src/bigwig.cc", "src/dna.cc"],
     [("results of writing are checked before anything is acknowledged",
       "Fiver::pickle, Fiver::hazel, write_dna"),
      ("a failed merge leaves its sources in place",
       "merge_worker in src/bigwig.cc")],
     ["return values, then the content of views before and after restarting"],
     note=SIM + "Errors are injected into operations that change storage, not "
     "into reads; stopping the process after an injected error counts as "
     "reporting it.")

prop("D04", "A started view never changes until it ends",
     "Between starting and ending it, a view of a dynamic index answers every "
     "question (text, annotations, counts, queries) from one fixed set of "
     "transactions, no matter how many transactions commit, how often shards "
     "are merged, converted or removed meanwhile, and whether caches are cold "
     "or warm. A clone of a started view is a view of the same set, and stays "
     "so when the original ends.",
     ["schedules", "histories", "configurations"],
     "all interleavings of readers holding views and clones with writers and "
     "compaction",
     "The tests read from a few threads in whatever order the machine happens "
     "to run them, and compare totals.",
     ["src/bigwig.cc", "src/fluffle.h", "src/cache_gate.h", "src/hazel.cc"],
     [("a view keeps its own list of shards and its own cache",
       "Bigwig::start_, Bigwig::clone_"),
      ("shards stay readable while somebody holds them",
       "Fiver and Hazel hold their data or their open file")],
     ["repeated answers of the same view and of its clones"],
     note=SIM + "Views are audited repeatedly while writers and compaction run; "
     "every answer is compared with the model of the set first seen.")

prop("D05", "What is visible follows the order of commits",
     "A view shows every transaction whose commit returned before the view "
     "started and none whose commit began after it had started; if it shows "
     "one transaction it shows every transaction whose commit returned before "
     "that one's began, and a later view never shows less. This holds for "
     "clients in different threads, without any coordination between them.",
     ["schedules", "histories"],
     "all interleavings of concurrently committing and starting clients",
     "Real-time order between threads cannot be asserted by tests that do not "
     "control the schedule.",
     ["src/bigwig.cc", "src/fluffle.h"],
     [("commits and starts are ordered by one lock",
       "Bigwig::commit_, Bigwig::start_")],
     ["call and return order of commits and starts, and what views show"],
     note=SIM + "Invocation and return are stamped with a global event number; "
     "presence in every view is judged against these stamps.")

prop("D06", "Every transaction gets its own contiguous stretch of addresses",
     "The text appended by one transaction occupies one contiguous range of "
     "addresses, in the order in which it was appended, and every token is "
     "found at the address its transaction's layout gives it. The ranges of "
     "different transactions never overlap, follow the order in which the "
     "transactions became ready, never change once visible, and are never given "
     "to another transaction, even if others abort, run concurrently or are "
     "interrupted by a crash.",
     ["schedules", "crash_points", "histories"],
     "all interleavings of transactions that become ready, commit and abort, "
     "and all crash points",
     "The tests append from few threads and check totals, under whichever "
     "schedule happens.",
     ["src/bigwig.cc", "src/fiver.cc"],
     [("addresses are assigned when a transaction becomes ready, under a lock",
       "Bigwig::ready_, Fiver::relocate"),
      ("the next address is recovered from the stored shards",
       "Bigwig::make in src/bigwig.cc")],
     ["addresses of annotations, of tokens and of translated text"],
     note=SIM + "Every transaction marks its own range with an annotation whose "
     "value identifies it; the model derives all addresses from it.")

prop("D07", "Background compaction never changes an answer",
     "Merging small shards, converting them to the stored single-file form, "
     "merging those, and recovering an interrupted merge change nothing that "
     "can be asked: text over any range, annotations with their values, order "
     "and overlap, erasures, counts of tokens, the range of content, and "
     "queries are the same before, during and after. It does not matter "
     "whether compaction is switched on, off or back on, how many workers it "
     "has, or when it runs. The same holds when a closed index is converted or "
     "its shards are merged by the offline tools (fiver2hazel, merge-hazels).",
     ["schedules", "crash_points", "histories", "configurations"],
     "all histories of transactions, all schedules of the workers, all size "
     "limits, all codecs",
     "The thresholds are so large that the tests never compact through all the "
     "forms, and never while being read or interrupted.",
     ["src/bigwig.cc", "src/fiver.cc", "src/hazel.cc", "src/simple_posting.cc"],
     [("choice of what to merge", "find_merge_action in src/bigwig.cc"),
      ("merging", "Fiver::merge, Fiver::hazel, Hazel::merge, "
                  "SimplePostingFactory::posting_from_merge"),
      ("swapping the result in", "merge_worker in src/bigwig.cc")],
     ["answers of views started before, during and after compaction"],
     "size limits of compaction",
     note=SIM + "Thresholds are shrunk so that every form and every merge "
     "occurs; answers are compared with a model that knows nothing of shards.")

prop("D08", "Transactions committed together become durable together",
     "When several ready transactions of a stored dynamic index are committed "
     "as one group, a crash at any point leaves either all of them or none of "
     "them after reopening. Once the group commit has returned successfully "
     "all of them are visible and stay so; if it reports failure none of them "
     "has been committed and they can still be aborted.",
     ["crash_points", "schedules", "histories"],
     "every crash point within and after group commits of any size, including "
     "crashes while an earlier group is being recovered",
     "No test crashes during a group commit.",
     ["src/bigwig.cc", "src/warren.cc", "src/fiver.cc"],
     [("a script recording the group is put in place before the first member "
       "commits", "Bigwig::commit_all, Fiver::commit_command"),
      ("opening runs the scripts it finds", "sanitize in src/bigwig.cc")],
     ["which members views show after reopening"],
     note=SIM + "The recovery script's commands are interpreted by the "
     "simulator's file system so that recovery itself can be interrupted.")

prop("D09", "A dynamic index always opens after a crash, and opening is safe",
     "However often and wherever the process was killed, also while opening "
     "and repairing after an earlier crash, the next attempt to open the index "
     "succeeds and shows exactly the transactions whose commit took effect. "
     "Opening again changes nothing, and the index then accepts new "
     "transactions and compacts as usual.",
     ["crash_points", "schedules", "histories"],
     "sequences of up to three crashes at arbitrary storage operations, each "
     "followed by a restart",
     "The tests never reopen an index that was not closed in good order.",
     ["src/bigwig.cc", "src/owsla.cc", "src/hazel.cc"],
     [("opening removes what is incomplete, superseded or temporary",
       "sanitize in src/bigwig.cc"),
      ("an interrupted merge is completed or undone",
       "find_recovered_hazel_merge in src/bigwig.cc, Hazel::merge")],
     ["opening, then auditing everything, then working on"],
     note=SIM + "Four incarnations per run with up to three crashes, the later "
     "ones often during recovery from the earlier.")

prop("D10", "Erased content stays erased, and nothing else disappears",
     "After a transaction that erases a range has been committed, no view "
     "started later shows any token or annotation lying within that range, "
     "and everything outside it is untouched, however shards are merged or "
     "converted and whether or not the index is restarted. An aborted "
     "or uncommitted erasure erases nothing.",
     ["schedules", "crash_points", "histories"],
     "all histories of overlapping and nested erasures by several clients, "
     "interleaved with compaction, aborts, crashes and restarts",
     "The tests erase in one order with one layout of shards; what remains "
     "visible depends on which shards hold the erasure and the content.",
     ["src/bigwig.cc", "src/fiver.cc", "src/hazel.cc", "src/simple_posting.cc"],
     [("erasures are annotations that hide what they contain",
       "BigwigIdx::hopper in src/bigwig.cc"),
      ("merging drops what is erased and keeps the erasures that may still be "
       "needed", "Fiver::merge, Hazel::merge, posting_from_merge")],
     ["tokens, annotations and counts of views"],
     note=SIM + "Where erasures are in play the generator gives each feature "
     "annotations that do not overlap, because hiding one of two nested "
     "annotations is order-dependent by design.")

prop("D11", "Threads sharing an index read the same thing, safely",
     "Any number of threads may read one dynamic index at once, through clones "
     "of one view or through views of their own, asking for the same features "
     "and text for the first time at the same moment. Each gets the answers it "
     "would get alone, and none touches memory that is not its own or waits "
     "for ever.",
     ["schedules"],
     "all interleavings of readers filling the same caches, with writers and "
     "compaction in the background",
     "Cache fills are over in microseconds; a test that does not control the "
     "schedule practically never has two of them overlap.",
     ["src/bigwig.cc", "src/hazel.cc", "src/fiver.cc", "src/cache_gate.h",
      "src/simple_posting.cc"],
     [("a fill is announced before it is done and others wait for it",
       "OwslaCache in src/bigwig.cc, src/cache_gate.h"),
      ("lazily read dictionaries, postings and text chunks are guarded",
       "HazelIdx and HazelTxt in src/hazel.cc")],
     ["answers of all readers; accesses to freed or foreign heap memory"],
     note=SIM + "Preemption is possible at every memory access of the "
     "repository's code; heap accesses are checked against a shadow map.")

prop("D12", "Settings are stored atomically and are not lost",
     "A setting of an index reads back exactly as it was last set, whatever "
     "characters it contains, in the same process and after restarting, and "
     "concurrent changes of different settings do not lose each other. A crash "
     "while changing a setting leaves its old or its new value, leaves all "
     "other settings alone and leaves the index able to open.",
     ["crash_points", "schedules", "inputs"],
     "all values, all interleavings of setting and reading, all crash points",
     "The tests set a few plain values in one process.",
     ["src/dna.cc", "src/recipe.cc", "src/bigwig.cc"],
     [("the file is written aside and renamed", "write_dna"),
      ("reading, changing and writing happen under one lock",
       "Bigwig::set_parameter_"),
      ("values are quoted", "freeze and cook in src/recipe.cc")],
     ["reading settings, in process and after reopening"],
     note=SIM + "Reads are judged against the recorded intervals of the writes.")

prop("D13", "Everything finishes: no deadlock, and compaction settles",
     "Every operation returns and every background worker ends within a bounded "
     "number of steps once clients stop working, under every schedule and "
     "number of workers; nothing is left waiting for ever and no worker "
     "retries without end. When it has settled, and storage has not failed, "
     "compaction has left no neighbouring shards that its own rules would "
     "still combine.",
     ["schedules", "histories", "configurations", "crash_points"],
     "all interleavings of clients, compaction workers and switching compaction "
     "on and off, with and without storage, also after recovering from a crash",
     "A test either terminates or hangs under the one schedule it happens to "
     "get; the races that strand work or lose a wake-up are rare.",
     ["src/bigwig.cc", "src/fluffle.h", "src/cache_gate.h"],
     [("workers retire under the lock that hands out work",
       "merge_worker, Bigwig::try_merge"),
      ("waiting for a cache fill", "src/cache_gate.h")],
     ["blocked and running threads at the end; the shards in the directory"],
     note=SIM + "Deadlock is detected exactly (no thread can run); lack of "
     "progress by a bound on steps far above any real run.")

prop("D14", "An update of a static index happens or doesn't, whatever crashes",
     "An update of a static index (transaction, ready, commit or abort) is "
     "whole. Once its commit has returned, what it appended is there, complete "
     "and at the addresses it was given, every time the index is opened "
     "afterwards; an aborted update leaves no trace and the index as it was. "
     "After a crash at any point of an update, recovering with the decision to "
     "commit or to abort (again and again, if recovery crashes too) leaves the "
     "update wholly there or wholly absent, as decided, all earlier content "
     "intact, and the next update possible; until then readers see the index of "
     "before. Storage that fails is reported, or stops the process before harm "
     "is done.",
     ["crash_points", "histories", "configurations"],
     "every history of updates, every point at which the process can die or "
     "storage can fail during an update or during recovery, every text and "
     "posting codec",
     "The tests update small indexes in an orderly process and never kill it; "
     "the recovery code runs only after a death at the right moment.",
     ["src/simple_warren.cc", "src/simple_txt_io.cc", "src/simple_appender.cc",
      "src/simple_annotator.cc", "src/simple_idx.cc", "src/committable.h"],
     [("rollback information is written before the files are extended",
       "SimpleAppender::transaction_, SimpleTxtIO::transaction_, "
       "SimpleAnnotator::transaction_"),
      ("annotations are merged into new files which replace the old ones",
       "SimpleAnnotator::ready_, commit_"),
      ("recovery undoes or completes an interrupted update",
       "SimpleAppender::recover, SimpleAnnotator::recover, "
       "SimpleTxtIO::recover"),
      ("a lock file keeps others from starting an update",
       "SimpleAnnotator::transaction_")],
     ["text, annotations, queries and vocabulary of fresh views"],
     "sizes of text chunks, of the text map's blocks and of sorted runs",
     note=SIM + "Every piece committed earlier must be complete at its "
     "addresses and an interrupted one wholly there or not, at every opening; "
     "with storage errors instead of crashes, an update that reports success "
     "must be there.")

prop("D15", "A static index is built completely, or the build says it failed",
     "When building a static index has reported success, the index answers with "
     "exactly the text, the annotations and the values it was given, however "
     "the build was cut into blocks, sorted runs and merges, and whatever "
     "text and posting codecs it uses. When storage fails during the "
     "build, or the process dies, nothing reports success, and what is left "
     "either does not open or is complete.",
     ["crash_points", "configurations", "histories"],
     "all inputs cut in all ways, all codecs, all points of storage failure and "
     "of process death",
     "The tests build small indexes that fit a single run, with storage that "
     "never fails.",
     ["src/simple_builder.cc", "src/simple_txt_io.cc", "src/simple_posting.cc",
      "src/simple_annotator.cc", "src/simple_appender.cc", "src/builder.cc"],
     [("postings are collected in sorted runs that are merged",
       "SimpleBuilder::maybe_flush_tokens, maybe_flush_annotations, "
       "build_index"),
      ("the configuration is written last", "SimpleBuilder::finalize_"),
      ("streams are checked when they are closed", "src/simple_builder.cc")],
     ["text, annotations, queries and vocabulary of the finished index"],
     "sizes of text chunks, of the text map's blocks and of sorted runs",
     note=SIM + "The finished index is compared with a model that knows only "
     "what was added.")

prop("D16", "Concurrent reading of a static index returns correct answers",
     "Any number of threads that read a static index, through shared views or "
     "clones of their own, each get the answers they would get alone, while "
     "caches of postings and of text fill for the first time and while an "
     "update is in progress; no thread touches freed or unfinished data.",
     ["schedules"],
     "all interleavings of readers with each other, with cloning and with one "
     "update in progress",
     "The tests read from one thread.",
     ["src/simple_warren.cc", "src/simple_idx.cc", "src/simple_txt_io.cc",
      "src/simple_txt.cc", "src/simple_posting.cc"],
     [("lists are read under a lock and kept", "SimpleIdx"),
      ("each clone has text files of its own; the last chunk is remembered "
       "under a lock", "SimpleTxt, SimpleTxtIO")],
     ["answers of all readers; accesses to freed or foreign heap memory"],
     note=SIM + "Preemption is possible at every memory access of the "
     "repository's code; heap accesses are checked against a shadow map.")

prop("D17", "A file is imported into a meadow as a whole or not at all",
     "Importing a TSV or JSONL file into a meadow with any number of threads "
     "gives back every record of the file, each with its fields and under the "
     "file's path, exactly once and nothing else. If the import reports "
     "failure, or the process is killed, then after restarting the file is "
     "either wholly there and marked as imported, or no record of it is, and "
     "importing it again works. Whoever sees a file marked as imported sees all "
     "of it. Reading a file that cannot be read to its end is a failure, not a "
     "short file.",
     ["schedules", "crash_points", "histories"],
     "all files, numbers of threads, interleavings of importing clients and "
     "readers, points of process death, and failures of storage or of reading "
     "the file",
     "The tests import a few files with nothing else going on; the threads of "
     "one import, other imports, compaction and a crash meet only by chance.",
     ["meadowlark/meadowlark.cc", "src/scribe.cc", "src/json.cc",
      "src/warren.cc", "src/bigwig.cc", "src/builder.cc"],
     [("worker threads append through clones and are committed as one group",
       "append_jsonl and append_tsv in meadowlark/meadowlark.cc"),
      ("the path that marks a file is committed with its records",
       "append_path_scribe, append_path_warren, Warren::commit_all"),
      ("files, also compressed ones, are read through one stream",
       "maybe_zipped in src/builder.cc")],
     ["records, fields, words, marks and queries of views"],
     "how few records make an import single threaded",
     note=SIM + "A view that shows a file's mark must give back exactly its "
     "records; after a restart also one that doesn't must show none of them.")

prop("D18", "Foraged statistics describe exactly what was foraged",
     "Foraging statistics from a meadow with any number of threads annotates "
     "every item with the frequency of each of its terms, and stores document "
     "frequencies and totals that add up to exactly those items, independent of "
     "how the items were divided among threads. Statistics that are labelled as "
     "present are complete: a forage that fails or is killed leaves after "
     "restarting either everything or nothing, foraging again works, and ranking "
     "statistics read from the meadow equal those of the items.",
     ["schedules", "crash_points", "histories"],
     "all collections, numbers of threads, interleavings with imports, other "
     "forages and compaction, and points of failure or process death",
     "The tests forage once with one thread and nothing else going on.",
     ["meadowlark/meadowlark.cc", "meadowlark/forager.cc",
      "meadowlark/tf-idf_forager.cc", "meadowlark/tf-idf_stats.cc",
      "src/warren.cc"],
     [("items are divided among threads, each with a clone and a forager",
       "forage in meadowlark/meadowlark.cc"),
      ("frequencies are summed over what each thread stored",
       "TfIdfForager::ready_, TfIdfStats::make"),
      ("the label is committed last, in one group with the annotations",
       "forage, Forager::label")],
     ["annotations, totals and ranking statistics of views"],
     "how few items make a forage single threaded",
     note=SIM + "Frequencies, document frequencies, totals and labels are "
     "compared with those of the model's items.")

prop("D19", "Ranking with many threads returns what ranking alone returns",
     "Ranking in a meadow with any number of threads (parallel shortest-substring "
     "ranking over ranges of the address space, and batches of queries ranked by "
     "foraged statistics) returns the results that one thread ranking the same "
     "started view would compute: every container or item that belongs in the "
     "result down to the requested depth, exactly once, with its exact score and "
     "in order of score (equal scores in any order), and the results of every "
     "query of a batch under that query. It does not depend on how the work is "
     "divided, nor on imports, forages, commits and compaction that go on at the "
     "same time.",
     ["schedules", "inputs", "histories"],
     "all collections, queries, depths, numbers of threads, divisions into "
     "ranges, and interleavings with other work",
     "The tests compare one parallel ranking of one small static collection, "
     "with nothing else going on.",
     ["src/ranking.cc", "src/ranker.cc", "src/tf_hopper.h",
      "meadowlark/tf-idf_stats.cc", "src/bigwig.cc"],
     [("the address space is cut into ranges, each ranked by a clone of the "
       "view; the results are merged", "parallel_ranking in src/ranking.cc"),
      ("queries of a batch are dealt out to threads with clones of their own",
       "trec in src/ranker.cc"),
      ("statistics are read from the view", "TfIdfStats::make")],
     ["results of parallel rankings"],
     "how many tokens make a ranking parallel",
     note=SIM + "Results are compared with scores computed from all solutions "
     "of the queries and from the text of the items, within one view.")

prop("D20", "A scribed file is in the index as a whole or not at all",
     "Scribing files into a dynamic index (scribe_files, scribe_jsonl) makes each "
     "file one transaction. A file for which scribing has returned success is "
     "there, exactly once, with all its content, every line of a JSONL file as "
     "one object, and the annotations that span its name, its content and the "
     "whole; a file for which it failed, or which a crash cut short, is there as "
     "a whole or not at all. Whatever happens, no transaction is left open, and "
     "the index can be used, and the file scribed again, right away, also by a "
     "client whose transactions were committed together with those of others "
     "before. This holds with any number of clients that scribe, import, read and forage at once.",
     ["crash_points", "schedules", "inputs"],
     "all files, numbers of clients, interleavings with imports, reading, "
     "foraging and compaction, and points of failure or process death",
     "The tests scribe a few files with nothing else going on and nothing "
     "failing.",
     ["src/scribe.cc", "src/json.cc", "src/warren.cc", "src/bigwig.cc"],
     [("one transaction per file, aborted when anything fails",
       "scribe_files, scribe_jsonl in src/scribe.cc"),
      ("a scribe hands transactions on to its index",
       "WarrenScribe in src/scribe.cc"),
      ("objects become text and annotations", "json_scribe in src/json.cc")],
     ["text and annotations of views", "results of scribing"],
     note=SIM + "Files whose names do not exist are mixed in. scribe_files skips "
     "a file that cannot be read, so with an injected error its success says "
     "nothing; what is there is then looked at instead.")

prop("D21", "Trouble reading the index never damages it",
     "When a file of the index cannot be opened, read or listed for a while (an "
     "input or output error, no more descriptors or memory, a refused "
     "permission), whatever was going on then, be it opening, recovering, "
     "committing, compacting, building, updating, or importing, may fail, but it "
     "never takes what it could not read for something empty, absent or "
     "complete. Once the trouble is over, opening the index gives back "
     "everything that had been acknowledged, exactly as it was, nothing that had "
     "been rejected, and each transaction in flight as a whole or not at all.",
     ["crash_points", "schedules", "inputs"],
     "all places where the index reads its own files or directory, kinds of "
     "trouble, interleavings and crashes before and after",
     "The tests never make reading fail.",
     ["src/bigwig.cc", "src/fiver.cc", "src/hazel.cc", "src/working.cc",
      "src/simple_builder.cc", "src/simple_annotator.cc",
      "src/simple_appender.cc", "src/simple_txt_io.cc", "src/dna.cc"],
     [("opening, replaying and reconciling", "src/bigwig.cc, src/fiver.cc, "
       "src/hazel.cc"),
      ("the directory of a burrow", "src/working.cc"),
      ("merging of temporary files", "src/simple_builder.cc, "
       "src/simple_annotator.cc"),
      ("the last text of a static index", "src/simple_appender.cc")],
     ["all views after reopening", "results of operations"],
     note=SIM + "A life in which reading failed is treated as ending there: "
     "what it answers to readers from then on is not judged, as the interface "
     "of hoppers and of translation has no way to report an error; statistics "
     "foraged from what could not be read are not judged either.")

prop("D22", "The query server answers every request, whatever its clients do",
     "The query server (ssr-server) gives each line a client sends exactly one "
     "answer, in order, which repeats the request and says whether it was in "
     "order and, if not, why. A query and the requests for its next result go "
     "through all matching documents that have a number, of all collections, "
     "each once, best score first, with the right collection, number and "
     "passage, and then say that they are done; queries of several clients, and "
     "of one over several connections, do not get mixed up. A document is given "
     "back if exactly one has the number, and otherwise refused. Whatever a "
     "client sends (in lines of ordinary length and nesting), however slowly, "
     "in whatever pieces or ahead of its answers, and however it leaves, before "
     "or within a line or an answer, by closing or resetting its connection, "
     "the server neither ends nor hangs, and serves the next client as if "
     "nothing had happened.",
     ["inputs", "schedules", "fault_sequences"],
     "all collections, requests and sequences of requests, ways in which bytes "
     "are delivered and connections end, and interleavings of the threads that "
     "answer",
     "No test starts the server.",
     ["apps/ssr-server.cc", "src/ranking.cc"],
     [("requests and answers", "Server::handle, read_line, write_all in "
       "apps/ssr-server.cc"),
      ("collections are searched by threads and the results merged",
       "Server::query in apps/ssr-server.cc, parallel_ssr in src/ranking.cc")],
     ["bytes received by the clients", "whether the next client is served"],
     note=SIM + "The server's own code runs with its main loop; sockets are the "
     "simulator's, with buffers from one byte up. The collections are opened and "
     "asked by an oracle of its own, that computes scores from all solutions. "
     "Reading the collections does not fail here.")

prop("D23", "A table of ids changes nothing but the speed of looking them up",
     "Making a table of ids for a static index (fastid), for the first time or "
     "again, also for other ids, never changes what the index says. Translation "
     "gives the same text for every passage, id or not, with the table as "
     "without it, to any number of readers, whatever the ids contain, and also "
     "after later updates. If making it fails, or the process is killed at any "
     "point, the index opens as before, with the previous table, a complete new "
     "one, or none, and what had been said to be the ids is still known. A table "
     "is said to have been made only if it was written completely.",
     ["crash_points", "schedules", "inputs"],
     "all static indexes and ids, sequences of tables and updates, points of "
     "failure or process death, and concurrent readers",
     "No test makes a table of ids.",
     ["src/fastid_txt.cc", "src/simple_warren.cc", "src/dna.cc"],
     [("making the table", "fastid in src/fastid_txt.cc"),
      ("using it", "FastidTxt::make, FastidTxt::translate_ in "
       "src/fastid_txt.cc; SimpleWarren::make"),
      ("settings of a static index", "set_parameter_in_dna, write_dna in "
       "src/dna.cc")],
     ["text of passages", "settings", "whether the index opens"],
     note=SIM + "Audits translate exactly the ids, as well as all kinds of other "
     "passages, from views opened after each table, update and restart.")

prop("D24", "What is no longer needed is given back",
     "An index keeps on disk only what it uses. Whatever was committed, aborted, "
     "erased, compacted, imported or updated before, and however many crashes "
     "and failures came before, an index that is opened, used without failures "
     "and closed has no file in its directory that opening and reading it all "
     "does not use: no temporary file, no shard that another has replaced, "
     "nothing of an aborted transaction, of an interrupted merge or update; and "
     "opening it again finds nothing to clean up. When an index has been closed, "
     "or an operation has failed, no file or pipe it opened stays open. The "
     "query server closes every connection of a client that has gone.",
     ["crash_points", "schedules", "fault_sequences", "histories"],
     "all histories of transactions, aborts, compaction, updates, imports, "
     "crashes, errors and restarts",
     "The tests look at a few leftovers made by hand; nothing observes what "
     "histories with crashes and failures leave behind.",
     ["src/bigwig.cc", "src/fiver.cc", "src/hazel.cc", "src/working.cc",
      "src/simple_builder.cc", "src/simple_annotator.cc",
      "apps/ssr-server.cc"],
     [("what others replaced is removed", "merge_worker, combine_shards in "
       "src/bigwig.cc; Fiver::discard, Fiver::sanitize in src/fiver.cc; "
       "Hazel::sanitize, hazel_cleanup_merge_sidecars in src/hazel.cc"),
      ("temporary files", "Working::Working in src/working.cc; Fiver::pickle, "
       "Fiver::hazel in src/fiver.cc; SimpleBuilder::build_index in "
       "src/simple_builder.cc"),
      ("connections", "main in apps/ssr-server.cc")],
     ["the directory of an index", "open descriptors"],
     note=SIM + "Tables of ids (D23) are not judged here: they are read only "
     "when asked for.")

prop("D25", "Statistics for ranking are complete or not there at all",
     "Annotating an index with statistics for ranking (tf_idf_annotations, "
     "tf_df_annotations, and tf_annotations over ranges or over everything) is "
     "all or nothing: whatever fails, wherever the process dies, and whoever adds "
     "text or compacts meanwhile, every view and every later opening shows either "
     "all statistics of a range or of the collection, or none of them, and all of "
     "them once the call has said that it succeeded. They are exactly those of "
     "the items, one by one: how often each term occurs in each, the document "
     "frequencies or weights, the number of items and their length, whatever gaps "
     "and erased items lie between. That there are statistics is recorded in the "
     "settings of the index only when they are there, and ranking then uses them.",
     ["crash_points", "schedules", "fault_sequences", "histories"],
     "all collections of items with gaps and erasures, sequences of ranges, "
     "concurrent updates, and points of failure or process death",
     "The tests annotate one collection in one go with nothing else going on.",
     ["src/ranking.cc", "src/annotator.cc", "src/stats.cc", "src/df_stats.cc",
      "src/idf_stats.cc", "src/bigwig.cc", "src/simple_annotator.cc"],
     [("making statistics", "tf_annotations, tf_df_annotations, "
       "tf_idf_annotations in src/ranking.cc; Annotator::annotate_ in "
       "src/annotator.cc"),
      ("using them", "Stats::make in src/stats.cc; DfStats::make in "
       "src/df_stats.cc; IdfStats::make in src/idf_stats.cc")],
     ["solutions of statistical features", "settings", "Stats"],
     note=SIM + "An interrupted update of a static index is resolved as in D14: "
     "a commit that had begun is completed, one that was ready goes either way, "
     "and anything else is rolled back.")

NOFAULT = ("a pure function of its input: no schedule, fault, clock or shared "
           "state takes part, so simulation has nothing to decide; ")
prop("N01", "Queries mean what the query algebra says",
     "Evaluating any query over any set of postings yields exactly the minimal "
     "intervals its operators define, and its four directions of access agree "
     "with each other.",
     ["inputs"], "all queries and posting lists",
     "The tests evaluate a fixed list of queries.",
     ["gcl/gcl.cc", "gcl/parse.cc", "gcl/optimizer.cc", "src/hopper.cc"],
     [("operators", "gcl/gcl.cc")],
     na=NOFAULT + "input generation against a reference evaluator would be "
     "property-based testing. Its use within concurrent reading is covered by "
     "D07 and D11.")
prop("N02", "Tokenizing, translating and featurizing agree",
     "For every text, tokenizing it, counting its tokens and skipping over them "
     "agree, and equal tokens get equal features.",
     ["inputs"], "all texts and encodings", "The tests use a few texts.",
     ["src/utf8_tokenizer.cc", "src/ascii_tokenizer.cc",
      "src/hashing_featurizer.cc"],
     [("tokenizers", "src/*_tokenizer.cc")],
     na=NOFAULT + "what depends on it under concurrency is covered by D06, D07.")
prop("N03", "Compressors are lossless",
     "Decompressing what was compressed yields the original for every input.",
     ["inputs"], "all inputs", "The tests use a few inputs.",
     ["src/compressor.cc", "src/post_compressor.cc", "src/zlib_compressor.cc"],
     [("compressors", "src/*_compressor.*")],
     na=NOFAULT + "all of them are in use in the simulated runs.")
prop("N04", "Ranking formulas and evaluation measures are computed correctly",
     "Scores, rankings and measures equal their published definitions for every "
     "collection and query.",
     ["inputs"], "all collections, queries and judgements",
     "The tests compare a few values.",
     ["src/ranking.cc", "src/ranker.cc", "src/eval.cc", "src/stats.cc"],
     [("formulas", "src/ranking.cc")],
     na=NOFAULT + "numerical definitions need a reference implementation, not "
     "a scheduler.")
prop("N05", "JSON documents are indexed and given back faithfully",
     "Every valid document appended as JSON is given back as an equal document, "
     "and each of its fields is annotated over exactly its content.",
     ["inputs"], "all documents", "The tests use a few documents.",
     ["src/json.cc", "src/json_txt.cc", "src/json_featurizer.cc"],
     [("conversion", "src/json.cc")],
     na=NOFAULT + "its use under concurrency and failure is the subject of the "
     "append properties.")
