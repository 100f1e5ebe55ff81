SEQN = ("Exhaustive over the stated alphabet and depth on the real library compiled from the working tree (ASan); "
        "background workers are driven by the harness, ForestDB is replaced by a stand-in, values and keys outside the alphabet are not covered.")

prop("P01", "Point lookups return the last write of a key",
     "After any sequence of writes, deletions, syncs, flushes, compactions and reopenings, looking up a key returns exactly the value, "
     "metadata and sequence number of its last accepted write, and reports absence if it was never written or last deleted. "
     "Where the data currently lives (memory, log file, level-0 table, lower level) makes no difference.",
     ["histories", "configurations"],
     "every history of writes, deletions and maintenance operations, every key, for each partition count and log-file capacity",
     "The unit tests write fixed blocks of sequential keys with one or two maintenance steps; a history of five mixed steps over shared keys has thousands of variants.",
     ["src/jungle.cc", "src/log_mgr.cc", "src/table_mgr.cc", "src/memtable.cc", "src/table_file.cc", "src/table_compaction.cc"],
     [("newest component first lookup", "DB::get / DB::getRecordByKey: log section, then tables by level"),
      ("latest visible version per key", "MemTable record lists"),
      ("tombstone shadowing", "TableMgr lookup loop")],
     "bounded-exhaustive operation sequences on the real code vs. reference map", note=SEQN)

prop("P02", "Sequence numbers are unique, increasing and queryable",
     "Automatically assigned sequence numbers are consecutive and explicitly given ones are honoured if larger than all earlier ones; "
     "the reported maximum, minimum, last-synced and last-flushed numbers always match the operations performed, across reopenings. "
     "A lookup by sequence number of a record still in the log returns exactly that record, and nothing for numbers never used.",
     ["histories", "configurations"],
     "every history of plain, numbered and batch writes, syncs, flushes and reopenings, for several log-file capacities",
     "Tests check counters after straight-line loops; they do not interleave batches, explicit numbers, rotation and reopening.",
     ["src/log_mgr.cc", "src/log_manifest.cc", "src/memtable.cc", "src/log_file.cc", "src/jungle.cc"],
     [("sequence allocation", "MemTable::assignSeqNum"), ("log file rotation", "LogMgr::addNewLogFile"),
      ("watermarks", "LogManifest last synced/flushed log, MemTable synced/flushed numbers")],
     "bounded-exhaustive operation sequences on the real code vs. reference history", note=SEQN)

prop("P03", "Key iteration yields exactly the live records, in order, from any position",
     "A key iterator yields exactly the records alive when it was opened whose keys lie in its range, each once, in key order, forward and backward. "
     "Positioning at or above, or at or below, a key lands on the nearest such record, and any mix of steps and seeks behaves as on a sorted list of them; "
     "a superseded, deleted or out-of-range record is never returned.",
     ["histories", "programs", "inputs"],
     "every iterator program over every physical layout and key range; every write history followed by every seek and bounded scan",
     "Tests scan forward and backward over sequential keys; mixed seeks and direction changes over records spread across several components are combinatorial.",
     ["src/iterator.cc", "src/log_iterator.cc", "src/table_iterator.cc", "src/memtable_iterator.cc", "src/table_file_iterator.cc", "src/avltree.cc"],
     [("multi-way merge window", "Iterator / LogMgr::Iterator / TableMgr::Iterator window trees"),
      ("end-of-component flags", "no_more_next / no_more_prev"), ("range clamping", "MemTable::Iterator, TableFile::Iterator")],
     "exhaustive iterator programs and histories on the real code vs. sorted-map model", note=SEQN)

prop("P04", "Sequence-number iteration yields the records of its range in number order",
     "An iterator over sequence numbers returns records in strictly increasing number order going forward (decreasing backward), only records whose numbers lie "
     "in the requested range and existed when it was opened, each with the key, value and type it was written with. "
     "The latest record of every key whose number is in the range is always included; seeking positions on the nearest such number in the asked direction.",
     ["histories", "inputs"],
     "every write/maintenance history, number range, seek target and direction, on the database and on snapshots",
     "Tests iterate over a few fixed ranges; ranges cutting through log files, flushed tables and snapshots with seeks are not sampled.",
     ["src/iterator.cc", "src/log_iterator.cc", "src/memtable_iterator.cc", "src/table_iterator.cc", "src/table_file_iterator.cc"],
     [("range limits per component", "MemTable::Iterator::initSN / seekSN"), ("merge by number", "Iterator windows in BY_SEQ mode"),
      ("snapshot limits", "minSeqSnap / maxSeqSnap")],
     "bounded-exhaustive operation sequences x ranges x seeks on the real code vs. reference history", note=SEQN)

prop("P05", "Snapshots and open iterators are immune to later changes",
     "A snapshot shows, for its whole life, exactly the records up to the number at which it was taken: lookups and scans on it are unaffected by later writes, "
     "deletions, flushes, compactions, splits or in-place rewrites, and closing one snapshot never disturbs another or the database. "
     "An iterator likewise keeps showing the records present when it was opened.",
     ["histories"],
     "every history mixing writes, maintenance, snapshot opening and closing, and every change made under open iterators",
     "Tests open one snapshot at one point of a fixed sequence; the interplay of several snapshots with table replacement has thousands of orders.",
     ["src/jungle.cc", "src/log_mgr.cc", "src/table_mgr.cc", "src/table_file.cc", "src/iterator.cc"],
     [("pinned tables", "SnapInternal::tableList, TableFile::snapHandles"), ("pinned logs", "SnapInternal::logList"),
      ("reference counts keep removed files alive", "TableInfo::done / LogFileInfo::done")],
     "bounded-exhaustive operation sequences on the real code vs. reference views frozen at snapshot time", note=SEQN)

prop("P06", "Listed checkpoints open the exact state they marked",
     "Every checkpoint number the database lists was really made and can be opened, in this session or after reopening, and shows exactly the records up to that number. "
     "Checkpoints whose records have not been flushed yet are listed, in ascending order and up to the configured limit; "
     "a checkpoint that is no longer listed is refused with INVALID_CHECKPOINT.",
     ["histories"],
     "every history mixing writes, checkpoints, partial and full flushes, compactions and reopenings",
     "Tests make checkpoints in one fixed pattern; what remains openable after partial flushes, compactions and reopenings depends on the whole history.",
     ["src/jungle.cc", "src/log_mgr.cc", "src/memtable.cc", "src/table_mgr.cc", "src/table_file.cc"],
     [("checkpoint markers in log files", "MemTable::checkpoint / appendCheckpointMarker / loadCheckpoint"),
      ("checkpoints of tables", "TableFile::chkMap, setCheckpoint"), ("listing", "DB::getCheckpoints")],
     "bounded-exhaustive operation sequences on the real code vs. reference history", note=SEQN)

prop("P07", "Nearest-key and prefix searches find what a sorted map would",
     "A nearest-key search returns the closest qualifying key in the asked direction, skipping nothing that exists (a deletion marker not yet purged may stand in, with its own latest record). "
     "A prefix search reports every existing record under the prefix, the newest version of a key first, never a key outside the prefix or unknown to the view, "
     "stops at once when told to, and answers KEY_NOT_FOUND when nothing matches. Both hold on the database and on snapshots.",
     ["histories", "inputs"],
     "every history over keys sharing prefixes, every probe key with all four search options, every prefix, every stopping point",
     "Tests search fixed well-spread keys; neighbours split over memory, levels and emptied tables need specific histories.",
     ["src/jungle.cc", "src/log_mgr.cc", "src/memtable.cc", "src/table_mgr.cc", "src/table_manifest.cc", "src/table_file.cc"],
     [("per-component nearest", "MemTable::getRecordByKeyInternal, TableFile::getNearest"), ("choice between components", "DB::getNearestRecordByKey"),
      ("tables to visit", "TableManifest::getTablesNearest / getTablesPrefix")],
     "bounded-exhaustive operation sequences x searches on the real code vs. sorted map", note=SEQN)

prop("P08", "Keys, values and metadata survive unchanged, whatever their bytes and sizes",
     "Keys, values and user metadata are returned byte for byte as written - empty values, embedded zero bytes, bytes that look like internal headers, very long keys or metadata - "
     "from memory, log files and tables alike, across flush, compaction, split and reopening. "
     "Metadata given to a deletion is found by a metadata-only lookup as long as the deletion marker was not compacted away; ordinary lookups treat the key as absent.",
     ["inputs", "histories"],
     "every history over unusual record shapes; every combination of key, value and metadata shape through the full storage pipeline",
     "Tests use short printable strings; header-like bytes, buffer-boundary sizes and empty parts never occur in them.",
     ["src/memtable.cc", "src/table_file.cc", "src/jungle.cc", "include/libjungle/record.h"],
     [("log record format", "MemTable::flush / loadRecord"), ("metadata wrapping", "TableFile::userMetaToRawMeta / rawMetaToUserMeta, setSingle static buffer")],
     "bounded-exhaustive operation sequences and shape combinations on the real code vs. reference map", note=SEQN)

UNITN = ("Exhaustive over the stated bounded inputs/programs on the real component compiled from the working tree with AddressSanitizer; "
         "larger sizes than the stated bounds are not covered.")

prop("P30", "The ordered index tree stays a valid, balanced search tree",
     "After any sequence of insertions and removals the tree underlying iterators contains exactly the inserted, not yet removed items, in order, with correct parent links and "
     "heights that differ by at most one between siblings. Searches for an item, the nearest smaller or nearest greater, first, last, next and previous return what a sorted list would; "
     "inserting an item equal to an existing one returns the existing one and changes nothing.",
     ["programs", "inputs"],
     "every AVL-shaped tree up to a node bound, with every possible insertion, removal and search on it; every sequence of operations from empty to a depth",
     "No test exercises the tree directly; rotations at each shape and both parents are reached only by chance.",
     ["src/avltree.cc", "src/avltree.h"],
     [("rotation and rebalancing", "_balance_tree, _rotate_*"), ("removal with successor", "avl_remove"), ("searches", "avl_search, avl_search_smaller, avl_search_greater")],
     "inductive explicit-state enumeration: every balanced shape x every operation, checked against a sorted list", note=UNITN)

prop("P31", "Bloom filters never deny an inserted key",
     "A key inserted into a Bloom filter is always reported as possibly present, also by its precomputed hash pair and after exporting and re-importing the filter; "
     "an empty filter reports nothing present, and setting one bit of a bitmap changes no other bit. "
     "The hash functions give, for every length and alignment, the published MurmurHash3 values without reading beyond the key.",
     ["inputs", "programs", "configurations"],
     "every filter geometry to a bound with every short key; every short program of bit operations; every key length, offset and bit pattern of the hash inputs",
     "Tests check one geometry and an average false positive rate; boundary bit counts and hash tails are not covered.",
     ["src/bloomfilter.cc", "src/bloomfilter.h", "src/murmurhash3.cc"],
     [("bit positions", "BloomFilter::get / set"), ("bitmap", "Bitmap::get / set"), ("hash tails", "MurmurHash3_x64_128")],
     "exhaustive enumeration of geometries, keys and bit programs vs. reference set", note=UNITN)

prop("P32", "Checksums are right and catch every small corruption",
     "The checksum of any block equals the standard CRC32C-style definition of its table for every length, alignment and starting value, and computing it piecewise gives the same value as computing it at once. "
     "Any change of a single bit, and any burst up to 32 bits, changes the checksum.",
     ["inputs"],
     "every length and alignment to a bound, every split point, every single-bit and short burst error of reference blocks",
     "The only test compares two values; slicing loops and tails by length and alignment are not covered.",
     ["src/crc32.cc", "src/crc32.h"],
     [("slicing tables", "crc32_8 lookup"), ("tails", "crc32_1")],
     "exhaustive enumeration of lengths, alignments, splits and error patterns vs. bitwise reference", note=UNITN)

prop("P33", "The plain file layer reads back exactly what was written, or says so",
     "Reading through the ordinary file layer returns exactly the bytes written at those offsets; appends go to the end, truncation cuts, end-of-file and existence answers match. "
     "Short transfers and interruptions are retried until complete; an operation that reports success has its full effect and one that fails says so.",
     ["programs", "fault_sequences"],
     "every program of file operations to a depth; every such short program with a short transfer, interruption or error at each system call",
     "Tests write and read one file; partial transfers and errors at each call are not produced.",
     ["src/fileops_posix.cc", "src/fileops_base.h"],
     [("transfer loops", "FileOpsPosix::pread / pwrite / append"), ("error mapping", "FileOpsPosix")],
     "exhaustive operation programs and fault positions on the real code over a simulated file system", note=UNITN)

prop("P34", "Direct-I/O files hold exactly the appended data up to the last flush",
     "Data appended to a log file in direct-I/O mode and flushed reads back unchanged at every offset, is found intact after closing and reopening the file and truncating off the padding, and is durable after a reported sync. "
     "All transfers respect the device alignment, whatever the sizes of the appends, and files of different configurations do not disturb one another.",
     ["programs", "fault_sequences", "configurations"],
     "every program of appends of boundary sizes, flushes, syncs, reads, truncations and reopenings to a depth, two geometries; faults at each system call",
     "Tests use the default geometry and a few sizes; residues around block and buffer ends, reopening at each of them, and failures are not enumerated.",
     ["src/fileops_directio.cc", "src/fileops_directio.h", "src/log_file.cc"],
     [("tail buffering", "FileOpsDirectIO::append / flush"), ("padding recognition", "PADDING_HEADER_FLAG blocks"), ("truncation on load", "LogFile::load")],
     "exhaustive operation programs and fault positions on the real code over a simulated file system", note=UNITN)

prop("P35", "Serialized fields read back as written; bad bytes are refused",
     "Any sequence of fields written through the serializer reads back identically, from a memory buffer or a file, in the same order; reads at explicit positions agree with sequential ones. "
     "Writing past a fixed buffer, or reading beyond the end of a truncated or foreign buffer, fails without touching memory outside it and without inventing data.",
     ["programs", "inputs"],
     "every sequence of field types and sizes to a depth, every capacity, every truncation point, foreign length bytes",
     "Tests round-trip one fixed structure; capacities and truncations are not enumerated.",
     ["src/internal_helper.h", "src/internal_helper.cc"],
     [("bounds checks", "RwSerializer::chkResize, getSb, get"), ("endianness", "putU32 / getU32")],
     "exhaustive field programs and truncation points vs. byte-level reference", note=UNITN)

prop("P36", "Buffers, records and status values behave as values",
     "Comparing two buffers is unsigned bytewise order with a prefix first, and all comparison operators agree with it. "
     "Copying, cloning, moving, appending and freeing buffers, pairs and records keeps contents right, owns each allocation exactly once and never leaks, double-frees or writes to memory it does not own; "
     "every status code has its own name.",
     ["programs", "inputs"],
     "every pair of short byte strings; every program of ownership operations on two buffers to a depth; every record built from each combination of fields",
     "Tests use a handful of strings and single operations; combinations of ownership and self-reference are not enumerated.",
     ["include/libjungle/sized_buf.h", "include/libjungle/keyvalue.h", "include/libjungle/record.h", "include/libjungle/status.h", "src/internal_helper.h"],
     [("ownership flags", "SizedBuf flags"), ("comparison", "SizedBuf::cmp"), ("status names", "Status::toString")],
     "exhaustive ownership programs on the real classes vs. ownership model with allocation accounting", note=UNITN)

FAULTN = ("Exhaustive over the stated histories and fault positions on the real library compiled from the working tree, over a simulated file system; "
          "metadata operations are assumed ordered and durable, data of a file may lose any suffix of what was not synced; ForestDB is replaced by a stand-in.")

prop("P09", "A log-store database loses only what was asked to be purged",
     "In log-store mode (no tables), every written record stays readable by key and number, through snapshots and iterators, until it is purged by flushing up to its number; "
     "purging removes a record only if its number is at or below the given one, sequence numbers keep increasing, snapshots opened before keep their view, "
     "and neither eviction and reloading of memory tables, lazily loaded files, reopening nor a crash loses or resurrects anything.",
     ["histories", "configurations", "crash_points"],
     "every sequence of write, sync, purge, eviction by the reclaimer, snapshot and reopen to a depth, three configurations; every crash point of each",
     "Tests purge and reload a fixed log in a fixed order.",
     ["src/log_mgr.cc", "src/log_manifest.cc", "src/log_file.cc", "src/log_reclaimer.cc", "src/memtable.cc"],
     [("purge", "LogMgr::flush, LogMgr::removeStaleFiles"), ("eviction", "LogMgr::doBackgroundLogReclaimIfNecessary, LogFileInfo"), ("lazy loading", "LogFile::loadMemTable")],
     "exhaustive operation sequences and crash points on the real library", note=SEQN)

prop("P10", "Rollback and discard remove exactly the records asked for",
     "Rolling back to a sequence number (log-store mode) removes every record with a greater number and nothing else, and the next write continues right after it; discarding dirty records "
     "removes exactly the unsynced ones. This holds for any history, with snapshots or iterators still open, after eviction, purge and reopening, "
     "and after a process crash at any point inside the rollback: what is found is the content before or after it, or a contiguous prefix in between.",
     ["histories", "configurations", "crash_points"],
     "every sequence of write, sync, rollback, discard, purge, eviction, readers and reopen to a depth, several log capacities; every crash point of each",
     "Tests roll back one fixed log once, without readers and crashes.",
     ["src/log_mgr.cc", "src/log_manifest.cc", "src/log_file.cc", "src/memtable.cc", "src/jungle.cc"],
     [("rollback", "LogMgr::rollback, LogFile::truncate"), ("discard", "LogMgr::discardDirty, MemTable::discardDirty"), ("log reuse", "LogManifest::removeLogFile, LogFile::destroySelf")],
     "exhaustive operation sequences and crash points on the real library", note=SEQN)

prop("P13", "Maintenance by any strategy or worker leaves the content alone",
     "Flushing, compaction (level-0, level to level, in place), split and merge, whether called directly or chosen by the background compactor and flusher, keep every record, its metadata and number visible "
     "to lookups, iterators and snapshots in every configuration: tiny tables, fast index scan, no sequence index, other hash partitions, kept tombstones, direct IO, a single level. "
     "A compaction callback decides only about the records it is asked about: a record it keeps stays, one it drops disappears and no older version or other record comes back.",
     ["histories", "configurations"],
     "every sequence of writes, flushes and maintenance tasks to a depth, in ten configurations",
     "Tests run one maintenance operation over one fixed content in the default configuration.",
     ["src/compactor.cc", "src/flusher.cc", "src/table_compaction.cc", "src/table_compact_condition.cc", "src/table_split.cc", "src/table_mgr.cc", "src/table_file_compaction.cc", "src/table_set_batch.cc"],
     [("task choice", "Compactor::work, TableMgr::chkL0CompactCond, pickVictimTable"), ("level compaction", "TableMgr::compactLevelItr"), ("in-place compaction", "TableMgr::compactInPlace")],
     "exhaustive operation sequences on the real library, background workers run as steps", note=SEQN)

prop("P14", "A custom key order is followed everywhere",
     "With a custom comparison function, everything that depends on the order of keys follows it: point lookups, ranges, seeks, backward iteration and nearest searches, in the log, in level-0 and in all other levels, "
     "after every maintenance operation and reopening; the comparison function receives the configured parameter.",
     ["histories", "configurations"],
     "every sequence of writes, flushes, maintenance and reopening to a depth under two key orders (reverse, by length), with every range and nearest search",
     "Tests use one custom order (doubles) on the log and a single table layout.",
     ["src/memtable.cc", "src/memtable_iterator.cc", "src/table_manifest.cc", "src/table_manifest.h", "src/table_compaction.cc", "src/table_iterator.cc", "src/iterator.cc", "src/log_iterator.cc"],
     [("memtable order", "MemTable::cmpKey, MemTable::Iterator"), ("table order", "TableInfo::cmp, TableManifest::getTablesRange"), ("merging iterators", "ItrItem::cmpKey")],
     "exhaustive operation sequences on the real library", note=SEQN)

prop("P15", "Values survive pluggable compression, whatever the callbacks answer",
     "With compression callbacks installed, every lookup, scan, snapshot, nearest and prefix search returns each value exactly as written, whether the callback shrank it, grew it, "
     "left it as large, declined or failed, and whatever buffer it asked for, through sync, flush, compaction, split, merge, reopening and crashes. The callbacks only ever see values that "
     "were written, with an output buffer of at least the requested size, and the decompressor only sees what the compressor made. If decompression fails or the callbacks are missing, "
     "reads return an error rather than something else, and the stored records are not lost.",
     ["histories", "crash_points", "fault_points"],
     "all histories of 5 operations over values of eight kinds of callback answers, log files of 2 and many entries, two-level layouts; every position of one or all following failing decompressions; "
     "every value length around the internal buffer limits; every crash point of sync and flush histories",
     "The compression tests use one codec that always succeeds on a few values; declining, growing, failing callbacks and their combination with maintenance are never met.",
     ["src/table_file.cc", "src/log_file.cc", "src/memtable.cc", "src/memtable.h", "src/log_mgr.cc", "src/jungle.cc", "include/libjungle/db_config.h"],
     [("compression at sync", "MemTable::flush"), ("decompression at load and lookup", "MemTable, LogFile, TableFile::decompressValue"), ("compressed flag", "RawMeta / InternalMeta")],
     "explicit enumeration of operation histories, callback answers, failure positions and crash points on the real code, with a dictionary codec that registers all its outputs", note=SEQN)

prop("P16", "A read-only handle shows the database and never changes a file",
     "A handle opened in read-only mode, including one opened over what a crash left behind, shows what a normal handle would, through every lookup, scan and snapshot; every call that could only mean a change is "
     "refused; and neither opening, reading, attempting changes, background workers nor closing creates, removes or alters any file. A later normal open finds everything.",
     ["histories", "crash_points"],
     "all histories of 4 operations in four layouts, ending with a close or at every crash point, x all reads x every modifying call x the three background workers; all settings combinations; missing databases",
     "One test opens a closed database read-only and reads; states after crashes, maintenance calls, and the bytes on disk are not looked at.",
     ["src/jungle.cc", "src/log_mgr.cc", "src/table_mgr.cc", "src/log_manifest.cc", "src/table_manifest.cc", "src/db_manifest.cc", "src/flusher.cc", "src/compactor.cc"],
     [("refusing changes", "DB::* readOnly checks, P->tableMgr->..."), ("loading without repairing", "LogMgr::init, TableMgr::init"), ("closing without storing", "DBInternal::destroy, LogMgr::close")],
     "explicit enumeration of histories and crash points on the real code over a simulated disk compared byte for byte", note=SEQN)

prop("P17", "Stores of one group are independent and found again under their names",
     "Every key-value store of a group behaves as if it were alone: operations, maintenance, closing and reopening of one never show in or damage another; a store is found under its name again, whatever the name, "
     "and two names never share a store. After a crash, also one during the creation of a store, every store holds a contiguous prefix of its own history containing everything durable. "
     "A failure while opening a store is reported, never gives out a broken handle, and leaves the group and the other stores intact.",
     ["histories", "crash_points", "fault_points"],
     "all histories of operations on three named stores and the default one with creation, closing and reopening; names of every length class; every crash point; every failing system call of creating and opening",
     "The test of groups creates a few stores with short names, on a healthy disk, and never crashes.",
     ["src/db_group.cc", "src/db_manifest.cc", "src/db_manifest.h", "src/jungle.cc", "src/db_mgr.cc"],
     [("name to number map", "DBManifest"), ("opening a store", "DBGroup::openDB, DB::DB(parent, id)"), ("manifest durability and backup", "DBManifest::store, BackupRestore")],
     "explicit enumeration of histories over several stores, crash points and failing system calls on the real code", note=SEQN)

prop("P18", "A bulk-built database equals the same records written one by one",
     "A database made by the Builder, or assembled from table files by buildFromTableFiles, opens with exactly the records given to it, however they are spread over tables, numbered and listed; "
     "its last sequence number is not below any record's and is never issued again, also after reopening; every following write, flush, compaction, split, merge and reopening behaves as usual, "
     "also for keys below, between and above the built ones. A build that hits a failing system call reports it instead of returning an incomplete database, and what it reported as done survives a power loss.",
     ["histories", "fault_points", "crash_points"],
     "50 shapes (keys, records per table, automatic/ascending/descending numbers, built or assembled in other orders, partitions) x all sequences of 3 of 14 operations; each failing system call; each power-loss image",
     "The builder tests build one large sorted key set with one numbering and read it back.",
     ["src/jungle_builder.cc", "include/libjungle/jungle_builder.h", "src/table_manifest.cc", "src/log_mgr.cc", "src/log_manifest.cc", "src/memtable.cc"],
     [("table files", "Builder::set, finalizeFile"), ("manifests and first log", "Builder::buildFromTableFiles"), ("start number", "LogMgr::init startSeqnum, MemTable::load")],
     "explicit enumeration of build shapes, following histories, failing calls and crash images on the real code", note=SEQN)

prop("P20", "A crash at any point never loses durable data nor corrupts the database",
     "If the process dies between any two system calls, or the machine loses power and with it any suffix of the unsynced bytes of each file, the database opens again. "
     "Everything reported as synced with fsync (for a process crash: everything synced) is present; what is present beyond that is a contiguous prefix of the accepted writes, "
     "in order, with no invented, mixed or reordered record; and the reopened database accepts new writes, which again survive.",
     ["crash_points", "histories", "fault_sequences"],
     "every crash point of every history to a depth, every torn length of the last write per file, several log capacities",
     "Tests kill nothing: they reopen after orderly closes; a handful of fixed corruptions stands for all crash points.",
     ["src/log_mgr.cc", "src/log_file.cc", "src/log_manifest.cc", "src/table_manifest.cc", "src/db_manifest.cc", "src/table_mgr.cc", "src/internal_helper.cc"],
     [("log append and sync order", "LogFile::flushMemTable / sync"), ("manifest backup", "BackupRestore"), ("log truncation on load", "MemTable/LogFile::loadMemTable")],
     "exhaustive crash-point and torn-write enumeration on the real code", level="fault_enumeration", note=FAULTN)

prop("P21", "A crash during flush, compaction, split or merge changes no visible content",
     "Flushing logs to tables, compaction between levels, in-place compaction, split and merge only move data: after a crash at any point in one of them, "
     "and recovery, every record that was visible before is visible with the same value, metadata and sequence number, deleted records stay deleted, "
     "and repeating the operation completes it with the same result.",
     ["crash_points", "histories"],
     "every crash point of every maintenance operation over several layouts, power loss and process crash, crash during the recovery's own repetition",
     "Tests never interrupt maintenance at system-call granularity.",
     ["src/table_compaction.cc", "src/table_split.cc", "src/table_set_batch.cc", "src/table_manifest.cc", "src/log_mgr.cc", "src/log_manifest.cc"],
     [("manifest switch", "TableManifest::store"), ("log removal after flush", "LogMgr::flush"), ("old table removal", "TableManifest::removeTableFile")],
     "exhaustive crash-point enumeration over maintenance operations on the real code", level="fault_enumeration", note=FAULTN)

prop("P22", "Damaged files are refused or repaired, never read as different data",
     "If any byte of any file of a closed database is flipped, overwritten, truncated or zeroed, or a file is missing, opening either fails with an error or succeeds; "
     "every record then returned is one that was written, and a lookup or scan touching a damaged table record reports an error instead of silently omitting it or returning an older version, "
     "also after compactions, splits and merges. A damaged manifest is recovered from its backup with no loss; nothing crashes.",
     ["fault_sequences", "inputs", "configurations"],
     "every byte position of every file, six kinds of damage, every single-file removal; every table record damaged, followed by every maintenance operation",
     "Tests damage a few chosen files in one way each.",
     ["src/log_file.cc", "src/log_manifest.cc", "src/table_manifest.cc", "src/db_manifest.cc", "src/internal_helper.cc", "src/table_compaction.cc", "src/table_split.cc", "src/table_iterator.cc"],
     [("log entry checksums", "MemTable load"), ("manifest checksum and backup", "BackupRestore::restore, *Manifest::load"), ("error propagation", "TableMgr, Iterator")],
     "exhaustive fault (corruption position x kind x action) enumeration on the real code", level="fault_enumeration", note=FAULTN)

prop("P23", "A failing system call never loses or corrupts accepted data",
     "If any single system call made by any operation on a database (write, sync, flush, checkpoint, compaction, split, merge, open, close) fails, fails for the rest of that operation, or transfers less than asked, "
     "the operation either succeeds or reports an error, nothing crashes or hangs, every accepted write stays readable, later writes, sync, flush, compaction and reopening work and keep all of it, "
     "and a sync, checkpoint or close that returned OK is durable: a crash or power loss right after the failed operation or after the following sync loses nothing that was synced.",
     ["fault_sequences", "crash_points", "configurations"],
     "every operation after every fixture x every system call of it (reads and opens; writes, creations, fsyncs, truncations, removals) x three failure kinds, each continued and crashed twice two ways",
     "Tests never make a system call fail, and the number of call positions times follow-ups is out of reach by hand.",
     ["src/log_file.cc", "src/log_manifest.cc", "src/log_mgr.cc", "src/table_manifest.cc", "src/table_compaction.cc", "src/table_split.cc", "src/table_mgr.cc", "src/internal_helper.cc", "src/jungle.cc", "src/db_mgr.cc"],
     [("manifest rewrite after failure", "LogManifest::storeInternal, TableManifest::store"), ("failed flush of the log", "LogFile::flushMemTable"), ("removal of old tables only after the manifest is stored", "TableManifest::deferFileRemoval"), ("load on open", "LogManifest::load, TableManifest::load")],
     "exhaustive fault injection (operation x system call x failure kind) with crash images, on the real code", level="fault_enumeration", note=FAULTN)

prop("P37", "Manifest backup copies are exact or reported as failed",
     "After a copy, backup or restore of a manifest file that returned OK the destination holds exactly the source bytes (or exactly the given buffer, also when only the changed tail was written), durably if asked for, whatever the destination held before; "
     "if any system call fails or transfers less, an error is returned and no later backup leaves a hole of stale bytes; no descriptor or memory leaks; a missing source is reported.",
     ["inputs", "fault_sequences", "crash_points"],
     "every source size x old destination x failing call x failure kind; every series of backups with changing length and skip position; every power-loss image of what was reported durable",
     "Tests copy one file once and never fail a call.",
     ["src/internal_helper.cc", "src/internal_helper.h", "src/fileops_posix.cc"],
     [("full copy", "BackupRestore::copyFile"), ("incremental backup", "BackupRestore::backup with bytes_to_skip")],
     "exhaustive input and fault enumeration on the real code over a simulated file system", level="fault_enumeration", note=UNITN)

SCHEDN = ("Exhaustive over the stated thread programs and all schedules with the stated number of preemptions, on the real code compiled from the working tree with every "
          "atomic and lock operation a scheduling point; memory is sequentially consistent (no weak-memory reorderings); ForestDB is replaced by a stand-in for whole-database programs.")

prop("P24", "The concurrent skip list behaves like an atomic ordered set",
     "Whatever inserts, erasures and searches several threads perform at once on the memory index, every outcome is one that some order of the operations would give: "
     "an insertion that returned is found until erased, an erased node is not found after its erasure, searches never return absent or skip continuously present nodes, "
     "scans are in order, no freed node is touched, the size is right, and nobody waits forever.",
     ["schedules", "programs"],
     "every schedule (preemption-bounded) of every pair and many triples of operations over nearby keys; every single-threaded program to a depth",
     "The multi-threaded test runs random operations under whatever schedule the machine happens to give.",
     ["src/skiplist.cc", "src/skiplist.h"],
     [("node locks", "being_modified / ref_count of skiplist_node"), ("two-phase linking", "_sl_insert, _sl_erase_node"), ("searching past modified nodes", "_sl_next")],
     "stateless exploration of all preemption-bounded schedules of the real skip list, linearizability oracle", note=SCHEDN)

prop("P25", "Concurrent operations on one database are linearizable",
     "When several threads use one database at once, each read, scan and snapshot returns the state left by some order of the writes consistent with real time, "
     "in which an atomic batch takes place at once; maintenance running alongside (sync, flush, compaction, split, merge, checkpoint) never changes what is visible, never fails "
     "with an unexpected error, never crashes, never touches freed memory and never blocks forever.",
     ["schedules", "programs"],
     "every schedule (one preemption, more in the thorough tier) of every pair of 14 operations, of longer programs, and of three-thread programs, over five layouts",
     "Multi-threaded tests run one or two fixed programs under the schedules the machine happens to give and check little more than survival.",
     ["src/jungle.cc", "src/log_mgr.cc", "src/log_manifest.cc", "src/memtable.cc", "src/log_iterator.cc", "src/iterator.cc", "src/table_mgr.cc", "src/table_manifest.cc",
      "src/table_compaction.cc", "src/table_split.cc", "src/table_set_batch.cc", "src/skiplist.cc"],
     [("batch visibility barrier", "LogMgr::visibleSeqBarrier"), ("log file reference counts", "LogFileInfo grab/done"), ("table reference counts and removal", "TableInfo grab/done, TableManifest"),
      ("one task at a time per table", "TableMgr table and level locks"), ("sync and flush exclusion", "syncSema / flushSema")],
     "stateless exploration of all preemption-bounded schedules of the real library, linearizability oracle", note=SCHEDN)

prop("P12", "A global batch takes place in all of its databases at once, or in none",
     "Whatever other threads do, no reader ever sees a global batch in one database (or store of a group) and not yet in another it looks at afterwards, nor a part of it within one database, through lookups, scans or "
     "snapshots, nor does it disappear again. Concurrent global batches and ordinary writes are ordered alike in all databases, never deadlock, and maintenance alongside changes nothing. If any part is invalid, "
     "nothing is written anywhere; otherwise every part, of every store, is there, with the right numbers, also after reopening.",
     ["schedules", "programs"],
     "every schedule with one preemption of a global batch over separate and grouped databases against 8 readers and 7 writers or maintenance tasks, on three layouts; all combinations of seven kinds of parts over three databases",
     "The test of global batches runs one batch and a reader under whatever schedule occurs, on separate databases, with valid parts.",
     ["src/global_batch.cc", "include/libjungle/global_batch.h", "src/db_internal.h", "src/log_mgr.cc", "src/log_iterator.cc", "src/jungle.cc"],
     [("locking all logs in one order", "GlobalBatchExecutor::execute, BatchPairLess"), ("visibility", "LogMgr::getVisibleSeqBarrier, setGlobalBatch"), ("validity of all parts first", "LogMgr::checkBatchValidity")],
     "stateless exploration of all preemption-bounded schedules of the real library; exhaustive enumeration of part combinations", note=SCHEDN)

prop("P26", "A crash amid concurrent tasks never loses durable data nor corrupts the database",
     "While writers, syncs, flushes, checkpoints, compactions, splits and merges run concurrently, the process may die or the machine lose power between any two system calls. "
     "The database then opens again with everything that a completed sync made durable, its content is a contiguous prefix of the writes, no sequence number is issued twice, "
     "and maintenance on the recovered database loses nothing.",
     ["schedules", "crash_points"],
     "every one-preemption schedule of 36 pairs of maintenance tasks and 13 writer/sync/flush programs on two layouts x every crash point x every choice of surviving unsynced writes",
     ["a crash while a single task is running, at a fixed point"],
     ["src/log_manifest.cc", "src/table_manifest.cc", "src/log_mgr.cc", "src/table_mgr.cc", "src/table_compaction.cc"],
     [("LogManifest::storeInternal", "src/log_manifest.cc"), ("TableManifest::store", "src/table_manifest.cc"), ("LogMgr::flush", "src/log_mgr.cc")],
     "Controlled scheduler over the real library combined with a crash-point enumerator: each distinct system-call journal produced by any schedule is cut at every point and recovered.",
     note=SCHEDN + " Disk model as in P20, without torn writes.")

prop("P27", "Background workers, timers and table writers never lose a wakeup",
     "A request handed to a background worker, the task pool or a table writer is taken up without waiting for the next periodic wakeup, exactly once, whatever the interleaving; "
     "an event waiter returns once invoked and not before; work() never runs twice at once nor begins after stop() returned; a new configuration is in force from the next round on; "
     "tasks run once, never early, never after being cancelled or after shutdown; stopping and destroying workers, pool and writers always ends, and leased table writers come back with their work done.",
     ["schedules", "programs"],
     "every schedule with two (task pool: three, event awaiter: three) preemptions, with and without timers running out early, of 10 worker, 12 task, 12 waiter and 18 table-writer programs",
     "Tests start workers and wait for wall-clock time; a lost wakeup only shows as a delay, and the interleavings that lose one are never forced.",
     ["src/event_awaiter.h", "src/worker_mgr.cc", "src/simple_thread_pool.h", "src/table_writer.cc", "src/table_set_batch.cc", "src/table_compaction.cc", "src/table_split.cc"],
     [("idle/ready/waiting/done protocol", "EventAwaiter"), ("worker states", "WorkerBase::loop"), ("task coordinator", "simple_thread_pool::ThreadPoolMgr::loop"), ("lease and hand-over", "TableWriterMgr, TableWriterArgs")],
     "stateless exploration of all preemption-bounded schedules of the real code, timed waits that run out counted", note=SCHEDN)

prop("P28", "Asynchronous flush and sync requests do what their handlers report",
     "Every request made with flushLogsAsync has its handler called exactly once with its own context. When the handler reports success, what that request asked for has been done: "
     "everything written before a sync request is in the log (on disk if fsync was asked for), everything synced before a flush request, up to the requested number, is in tables; "
     "requests made in between never take that away, nor does a crash after the handler was called. A request for a database closed meanwhile is answered with an error and touches nothing. "
     "An immediate request never waits for a periodic wakeup, and closing never races with a delayed request.",
     ["histories", "crash_points", "schedules"],
     "all histories of up to 5 writes, requests of 6 kinds, worker rounds and reopenings ending in a worker round x every crash point in it; 16 programs of users and real flusher threads "
     "in four worker set-ups, every schedule with one deviation (closing against the timer: two, with timers running out at any moment)",
     "Tests issue one kind of request and wait; queued requests of different kinds, merging and crashes right after the handler are never combined.",
     ["src/flusher.cc", "src/flusher.h", "src/jungle.cc", "src/worker_mgr.cc", "src/log_mgr.cc"],
     [("request queue and merging", "FlusherQueue::push"), ("serving a request", "Flusher::work"), ("requesting, delayed wakeup", "DB::flushLogsAsync"), ("cancelling on close", "DBInternal::destroy")],
     "explicit enumeration of request histories with crash points on the real code, and stateless exploration of schedules of the real flusher threads", note=SCHEDN)
