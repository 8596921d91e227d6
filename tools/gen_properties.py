"""Writes /verif/properties.jsonl (kept as a program so the text is easy to edit)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = "mabel/data/writers/stream_writer.py"
WP = "mabel/data/writers/internals/writer_pool.py"
BW = "mabel/data/writers/internals/blob_writer.py"
IW = "mabel/data/writers/internals/base_inner_writer.py"
BAT = "mabel/data/writers/batch_writer.py"
WR = "mabel/data/writers/writer.py"
DBW = "mabel/data/writers/database_writer.py"
RD = "mabel/data/readers/reader.py"
IR = "mabel/data/readers/internals/base_inner_reader.py"
PR = "mabel/data/readers/internals/parallel_reader.py"
MP = "mabel/data/readers/internals/multiprocess_wrapper.py"
CU = "mabel/data/readers/internals/cursor.py"
DEC = "mabel/data/readers/internals/decompressors.py"
DSK = "mabel/adapters/disk/disk_writer.py"
DSR = "mabel/adapters/disk/disk_reader.py"
GW = "mabel/adapters/google/google_cloud_storage_writer.py"
GR = "mabel/adapters/google/google_cloud_storage_reader.py"
MW = "mabel/adapters/minio/minio_writer.py"
MR = "mabel/adapters/minio/minio_reader.py"
ST = "mabel/data/internals/storage_classes/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)


prop("C01", "Streamed records reach storage exactly once by the time finalize returns",
     "When StreamWriter.finalize() returns normally, every record whose append() returned normally is in committed storage exactly once in each partition it belongs to, and nothing that was not appended is there, however client threads, background eviction and finalize interleave. "
     "A failed storage write never silently drops acknowledged records: they are written by a later attempt, or finalize() raises and a later finalize() that succeeds has written them. "
     "A record may be stored twice only when the storage reported failure for a write it had in fact applied.",
     ["schedules", "fault_sequences", "configurations"],
     "All interleavings of 1-4 client threads, the background pool attendants of one or two StreamWriters and finalize; storage writes that fail before or after taking effect, are slow or stall; formats jsonl, zstd, parquet; pool capacities, idle timeouts and blob sizes; object-store and disk back ends.",
     "The tests run one thread, a healthy store and one lucky schedule; eviction racing with append and a store error inside the background thread are never exercised.",
     [SW, WP, BW],
     [("module lock held around append, eviction and finalize", SW), ("remove_writer commits the evicted writer", WP), ("commit keeps the buffer when the store raises", BW)],
     ["append/finalize return or raise", "blobs in the store"],
     [("writer_pool.writers", "open blob writers per partition", WP), ("buffer / wal", "records not yet committed", BW)])

prop("C02", "Each streamed record lands in the partition its time and fields name",
     "A record appended to a StreamWriter is stored under the date and time folders of the UTC instant of its append (or the writer's fixed date), in one partition for every combination of its placeholder field values, and in no other partition. "
     "A record that fails the schema is stored, unchanged, under a BACKOUT folder of the partition it would have had, does not fail the stream, and is never returned by a Reader.",
     ["schedules", "inputs", "configurations", "histories"],
     "Appends by several threads around hour, day, month and year boundaries and clock steps; fixed and moving dates; partition templates with date and field placeholders, list-valued, missing and unusual field values; text formats with valid and invalid records interleaved.",
     "Tests use one date and a handful of records; a clock that rolls over between two appends, or two records of different partitions racing into the pool, is not reachable by them.",
     [SW, WP, "mabel/utils/paths.py", WR],
     [("identity computed from template and clock at append", SW), ("date_format substitution", "mabel/utils/paths.py"), ("writer looked up by identity", WP), ("BACKOUT suffix on validation failure", SW)],
     ["blob paths and contents in the store"])

prop("C03", "A quiet stream is flushed within its idle timeout without being asked",
     "A record accepted by a StreamWriter that receives no further records for its partition is in committed storage within the idle timeout plus a short scheduling allowance, with no call to finalize, even if other partitions stay busy or cannot be stored; storage errors that have since stopped delay this only until shortly after they stop. "
     "No append() or finalize() blocks forever, whatever the background eviction is doing.",
     ["schedules", "fault_sequences", "configurations"],
     "All schedules of client threads and attendants, idle timeouts 1-60 s, bursts over pool capacity, bursts of failing or slow storage writes that end, stalled threads, wall clock steps (allowance grows by the size of a backward step).",
     "The bound depends on background thread timing and on what happens after a background failure; tests sleep a few real seconds on a healthy store and never look at the next flush after an error.",
     [SW, WP],
     [("attendant loop evicts stale writers", SW), ("get_stale_writers by last access", WP)],
     ["time at which a record first appears in the store"])

prop("C04", "A stream's blobs are cut only for size, idleness, over-capacity or finalize",
     "A StreamWriter commits a partition's open blob only because the blob exceeded blob_size, the partition was idle for the idle timeout, the writer was finalized, or more partitions than writer_pool_capacity were open and this one was among the least recently used. "
     "When more partitions than the capacity are open, the excess least recently used ones are committed within a short, bounded time and the rest stay open; every blob stays within blob_size plus one record.",
     ["schedules", "configurations", "histories"],
     "Append sequences over 1-3x capacity partitions, all schedules of the attendant against the clients, capacities 1-12, idle timeouts and blob sizes, a monotone clock of any granularity.",
     "Whether an eviction is premature depends on the pool's history at the instant the background thread looks; tests never fill, overfill and revisit the pool.",
     [SW, WP, BW],
     [("nominate_writers_to_evict picks LRU beyond capacity", WP), ("get_stale_writers", WP), ("size check in append", BW)],
     ["blob commits seen by the inner writer"])

prop("C05", "Readers see a batch frame whole or not at all",
     "A Reader of a dataset written by BatchWriters returns exactly the records of one completed batch: the newest batch (by start time) whose finalize had completed, never a partial batch and never a mixture. "
     "Once a batch's finalize() has returned, no later read returns an older batch; a writer that crashes before completing its batch changes nothing readers see.",
     ["schedules", "crash_points", "histories"],
     "All interleavings of 1-3 batch-writing processes (batches begun in different seconds, overlapping in time) with concurrent readers; a crash at any line or I/O step of a writer and a restart that writes the batch again; jsonl, zstd and parquet; disk and object-store back ends.",
     "Tests read only after a writer has finished; they cannot stop a writer half-way or place a reader between a blob and the completion marker.",
     [BAT, IR, DSK],
     [("frame.complete written last", BAT), ("latest complete as_at frame chosen", IR)],
     ["records returned by Reader", "frame files in the store"])

prop("C06", "Failed, empty or ignored batches never become visible",
     "A batch finalized with has_failure, even if a later finalize does not report it, or with no records (unless always_complete), or whose frame carries a frame.ignore marker, is never returned by any Reader, in any order of later finalize calls, markers and batches; readers get the newest remaining valid batch, or DataNotFoundError when there is none. "
     "Storage errors while writing a batch or its marker never produce a visible incomplete batch.",
     ["histories", "fault_sequences", "crash_points"],
     "Histories of up to six batches with mixed outcomes (success, failure flag, repeat finalize, empty, always_complete, crash, storage error at any write, later ignored) for one dataset and day, read after every step.",
     "Each outcome alone has a test; the choice depends on the whole history of frames and on errors at particular writes, which no test composes.",
     [BAT, IR],
     [("seen_failures latch and always_complete", BAT), ("frame.ignore / frame.complete scan with fall-back", IR)],
     ["records returned by Reader, DataNotFoundError"])

prop("C07", "A finalized batch holds exactly the accepted records, in order, despite retries",
     "After a Writer's or BatchWriter's finalize() returns normally, its committed blobs, taken in name order, decode to exactly the records whose append() returned normally, unchanged and in append order, with no empty or unreadable blob and none larger than blob_size plus one record; a Reader returns the same list. "
     "Records rejected by schema validation leave no trace, and a storage error raised to the caller loses nothing: retrying finalize() after the store recovers yields the same result (a record is duplicated only if the store had applied a write it reported failed).",
     ["inputs", "configurations", "fault_sequences"],
     "Record sequences with varied sizes and values, valid and invalid records interleaved, formats jsonl, zstd, flat, parquet, text, blob sizes that cut anywhere; disk and object store; write, flush and rename errors, torn writes and full disk at any write, followed by retry.",
     "Tests use two or three fixed record shapes, never fail a write and never check what a retry leaves behind.",
     [BW, BAT, WR, DSK, DEC],
     [("buffer kept until the inner commit succeeds", BW), ("blob rolled over on size", BW), ("finalize re-raises", WR), ("disk blob write", DSK)],
     ["blobs in the store", "records returned by Reader"])

prop("C08", "A committed blob is never overwritten by another commit",
     "Every committed blob gets a name no other commit uses: across all writers, threads, partitions and concurrently running processes sharing a store, a commit never replaces a blob committed earlier with different content, even when the clock is coarse, stands still or steps backwards. "
     "Within one process, names of successive blobs of a partition sort in commit order.",
     ["schedules", "configurations", "fault_sequences"],
     "Many writers and threads in 1-3 processes (distinct process ids) committing to the same folder; clock granularity from 1 ns to 16 ms, frozen clocks, backward steps within a process's life.",
     "A collision needs two commits to see the same clock reading; on the test machine's nanosecond clock it does not occur.",
     [IW],
     [("name built from time, node and process id", IW)],
     ["names passed to the store"])

prop("C09", "Resuming a read from a cursor yields every record exactly once",
     "If a read is stopped after any record and resumed - any number of times, in a new process, from the cursor as a dictionary or a JSON string - the pieces concatenate to exactly the uninterrupted read: nothing repeated, nothing skipped, same order. "
     "This still holds when, between stop and resume, new blobs were added that sort after all existing ones.",
     ["crash_points", "inputs", "configurations", "histories"],
     "Datasets of 1-20 blobs (including empty blobs and blobs in which filters match nothing), every stop point incl. before the first and after the last record, multiple resumes, select and filters, blobs appended by a writer between the pieces.",
     "Tests stop at random points of one two-blob fixture and resume on an unchanged dataset.",
     [CU, RD],
     [("bitmap of read blobs, partition digest, location", CU), ("skip_to_cursor", CU)],
     ["records returned by Reader", "DictSet.cursor"])

prop("C10", "A blob that cannot be read costs only its own records, and is reported",
     "When reading some blobs fails (I/O error, blob deleted after listing, truncated content) a Reader still returns, in order, every record of every other blob, returns for a failed blob only a prefix of its true records, invents nothing, and terminates. "
     "Every blob whose read raised an error is named in an error log entry.",
     ["fault_sequences", "inputs", "configurations"],
     "Any subset of blobs failing with I/O errors, short reads, vanishing or truncated at any byte, in jsonl, zstd and parquet; disk, GCS-like, MinIO-like and generic object stores.",
     "No test injects a read failure; all fixtures are intact.",
     [PR, DEC, DSR, GR, MR],
     [("per-blob exception containment and error log", PR), ("lazy decompress/parse pipeline", PR)],
     ["records returned by Reader", "error log"])

prop("C11", "A multiprocess read returns the serial read's records and always ends",
     "Reader(multiprocess=True) returns the same multiset of records as the serial Reader, with each blob's records in order, however slowly or unevenly the worker processes run, and finishes promptly after the last record. "
     "Closing the iterator early ends the workers and returns; if a worker dies the read does not hang and does not silently present a partial result as complete.",
     ["schedules", "fault_sequences", "configurations"],
     "5-24 blobs of JSON records, all schedules and start delays of 2-7 simulated worker processes, slow blobs, queue delivery delays, early close at any record, death of a worker at any step.",
     "Worker start order and queue timing decide the outcome; the one test uses real processes on a quiet machine.",
     [MP, RD],
     [("send/reply queues with one outstanding item per slot", MP), ("TERMINATE signals and timeouts", MP)],
     ["records returned by Reader", "time the read takes"])

prop("C12", "freshness_limit reads the newest day with data inside the limit, else raises",
     "A Reader with a freshness_limit returns exactly the data of the most recent day, counting back from the requested day no further than the limit, that has readable data (a day holding only invalid, incomplete or BACKOUT data counts as having none), and raises DataNotFoundError when there is no such day. "
     "A day within the limit is never skipped and one beyond it is never returned.",
     ["histories", "configurations", "schedules"],
     "Histories of daily batches with gaps, failed and ignored frames, BACKOUT-only days; limits of 1-8 days and sub-day limits; explicit dates and a moving clock crossing midnight; writers completing frames while the reader steps back.",
     "The single test covers one gap length with a real-time clock.",
     [RD, IR],
     [("step_back_a_day loop bounded by the limit", RD)],
     ["records returned by Reader, DataNotFoundError"])

prop("C13", "A ranged read returns each partition's newest valid frame exactly once",
     "Reading a date range returns, for every hour or day folder in the range and for every by_ partition folder, exactly the records of that folder's own newest valid frame (or all its blobs when it has no frames), each blob exactly once, independently of the state of any other folder; BACKOUT data and folders outside the range never appear. "
     "Where several by_ partitionings exist exactly one of them is read, so no record is returned twice. If a folder cannot be listed the read raises; it never passes the rest off as all of it.",
     ["histories", "configurations", "inputs"],
     "Histories of stream and batch writes over 1-4 days and hours with daily, hourly and by_field templates, partition values that are prefixes of one another, per-folder failed or ignored frames, ranges and clock positions, writers in several processes.",
     "Tests read a few static fixture trees; the interaction of one folder's frame state with another's needs generated histories.",
     [IR, "mabel/utils/dates.py", "mabel/utils/paths.py"],
     [("hourly cycle with visited paths", IR), ("by_ choice and per-folder as_at selection", IR)],
     ["records returned by Reader"])

prop("C14", "DatabaseWriter hands over every record once, in order, and finalizes once done",
     "When DatabaseWriter.finalize() returns normally the database adapter has been given every record whose append() was accepted, exactly once and in append order, before its own finalize was called. "
     "If an adapter commit or the adapter's own finalize raises, the error reaches the caller and no record is lost or reordered: a later successful append or finalize delivers the outstanding records (again only if the adapter had failed that batch).",
     ["inputs", "fault_sequences", "histories"],
     "0-350 records, adapter commit and finalize failing at any calls, before or after applying, retried finalize.",
     "Tests use a recording adapter that never fails and counts near one batch size.",
     [DBW],
     [("wal kept until commit succeeds", DBW), ("finalize commits then finalizes the adapter", DBW)],
     ["calls received by the adapter"])

prop("C15", "An object-store commit that returns has stored exactly those bytes",
     "When a Google Cloud Storage or MinIO commit returns, the returned name holds exactly the given bytes under the dataset's folder; when the upload cannot be completed it raises. "
     "Transient Google Cloud Storage errors (connection reset, protocol error, 500, 429) are retried within the retry deadline, and a retried or ambiguous upload never yields a second blob or altered bytes; non-transient errors are raised at once.",
     ["fault_sequences", "configurations"],
     "Sequences of up to 10 injected client errors (before or after the upload takes effect), slow uploads on a simulated clock, plain and batch writers incl. completion markers and always_complete empty batches.",
     "The emulator-backed tests do not run offline and cannot inject errors; retry timing needs a simulated clock.",
     [GW, MW],
     [("retry.Retry with a transient predicate around the upload", GW), ("put_object", MW)],
     ["objects in the fake bucket", "exceptions"])

prop("C16", "What any adapter's writers store, its readers return: completely and once",
     "For the disk, Google Cloud Storage and MinIO adapters alike, a Reader over any date range that covers what was written returns every record written through that adapter's writer in the range exactly once, and nothing from other datasets or dates, however sibling datasets, folders and days are named. "
     "The three adapters give the same answer for the same history.",
     ["configurations", "histories", "inputs"],
     "Histories of stream and batch writes to datasets and days (incl. datasets whose names are prefixes of others) through each adapter over simulated back ends, read back by range, whole or interrupted and resumed from a cursor.",
     "Object-store tests need a live service, and no test compares adapters on the same history.",
     [DSR, DSK, GR, GW, MR, MW, IR],
     [("get_blobs_at_path prefix listing", GR + ", " + MR), ("rglob listing", DSR)],
     ["records returned by Reader"])

prop("C17", "A persisted DictSet replays the same records however it is iterated",
     "A DictSet persisted to MEMORY, DISK or COMPRESSED_MEMORY yields the source records, unchanged and in order, on every fresh iteration and through count, take, get_items and first, with any number of other DictSets created, read interleaved with it, or discarded. "
     "A disk error while persisting or re-reading surfaces as an exception; it never yields missing or altered records.",
     ["schedules", "inputs", "fault_sequences"],
     "1-4 DictSets of 0-900 records in each storage class, created, read, interleaved and dropped by 1-3 threads in any order; temporary-file write, open and full-disk errors at any point.",
     "Tests iterate one fixture set once per storage class, with a working temporary directory.",
     [ST + "storage_class_disk.py", ST + "storage_class_compressed_memory.py", ST + "storage_class_memory.py", "mabel/data/internals/dictset.py"],
     [("own temporary file per set", ST + "storage_class_disk.py"), ("batched compression", ST + "storage_class_compressed_memory.py")],
     ["records yielded, exceptions"])

prop("C18", "A reader running beside a stream writer sees whole blobs, each once",
     "While StreamWriters are flushing, a Reader returns every record of every blob whose commit had completed before the read began, exactly once, and otherwise only records of blobs committed during the read, whole; it never fails, never returns part of a blob, a malformed record or a record that was not appended. "
     "Successive reads never lose records an earlier read returned.",
     ["schedules", "crash_points", "fault_sequences"],
     "All interleavings of 1-3 writing threads or processes and their attendants with 1-2 readers; disk writes that land in pieces, fail part-way or are cut off by a crash; jsonl, zstd and parquet; disk and object-store back ends.",
     "Tests never read while a writer is in the middle of writing a file.",
     [DSK, DSR, SW, IR],
     [("blob file written then visible under its final name", DSK), ("only known extensions are read", PR)],
     ["records returned by Reader"])

prop("C19", "Filter expressions, SQL and inline functions evaluate by their definitions",
     "Filters, select expressions and SQL statements return the rows and values their documented definitions give.",
     ["inputs"], "All expressions and records.", "Pure functions of their input; the tests sample them.",
     ["mabel/data/internals/expression.py", "mabel/data/internals/dnf_filters.py", "mabel/data/readers/internals/sql_reader.py", "mabel/data/readers/internals/inline_functions.py"],
     [("expression evaluation", "mabel/data/internals/expression.py")])
prop("C20", "DictSet aggregations match their definitions",
     "Grouping, distinct, sort, min, max, sum, mean and related aggregations of a DictSet equal their mathematical definition over its records.",
     ["inputs"], "All record sets.", "Pure functions of their input; the tests sample them.",
     ["mabel/data/internals/dictset.py", "mabel/data/internals/group_by.py"],
     [("aggregation methods", "mabel/data/internals/dictset.py")])
prop("C21", "Dates, paths and parameters are parsed and validated by their documented rules",
     "ISO dates, time deltas, path templates, dataset prefixes and reader parameters are parsed, expanded or rejected exactly as documented.",
     ["inputs"], "All strings and parameter combinations.", "Pure functions of their input; the tests sample them.",
     ["mabel/utils/dates.py", "mabel/utils/paths.py", "mabel/utils/parameter_validator.py"],
     [("parse_iso, parse_delta, date_format, validate", "mabel/utils")])

prop("C22", "Reads in one process do not disturb one another",
     "Any number of Readers created, iterated, resumed, dropped and created again in any interleaving, by one thread or several, each return exactly the records, in the same order, that the same Reader returns when it is the only one. "
     "An error, a missing dataset or a freshness limit that fails for one Reader affects no other.",
     ["schedules", "inputs", "configurations", "fault_sequences"],
     "1-4 datasets in every layout, 2-9 Readers with any mix of filters, selections, cursors, persistence and freshness limits used by 1-3 threads, some failing; what is stored does not change meanwhile.",
     "Tests read one thing at a time; state shared between readers (class attributes, default arguments, module globals, caches) only shows when two are in use.",
     [RD, IR, "mabel/data/internals/dictset.py", PR, CU, "mabel/data/internals/expression.py"],
     [("a Reader's state is its own", RD), ("listing and blob access per inner reader", IR), ("the parallel reader's state per Reader", PR), ("each Reader's cursor", CU)],
     ["records each Reader yields", "exceptions raised"])
prop("C23", "Calls on a stream always return and a finalized stream leaves nothing running",
     "Every call that opens, appends to or finalizes a StreamWriter returns or raises within bounded time once storage answers, whatever failed earlier, whatever other streams of the process do and whenever garbage collection runs. "
     "After finalize returns the stream's background thread ends and the stream writes nothing more. "
     "A stream that is abandoned without finalize still has its records flushed while its process lives, and does not keep its process from ending.",
     ["schedules", "fault_sequences", "histories", "configurations"],
     "1-3 threads that open, feed, finalize, retry, reuse the names of, drop and abandon several StreamWriters of one process while storage is slow, fails or runs out of memory; garbage collection at any instant.",
     "Tests use one stream at a time with a healthy store and never look at the threads left behind; a deadlock needs a specific interleaving of two streams, a failure or a collection.",
     [SW, WP, BW, IW],
     [("module lock held around append, eviction and finalize", SW), ("run_pool_attendant ends the attendant", SW), ("an eviction's failure does not end the attendant", SW), ("__del__ commits what a collected writer holds", BW)],
     ["when calls return", "threads alive", "blobs written after finalize"])
prop("C24", "A crash costs a stream only records not yet due to be flushed",
     "After a process that streams crashes at any point, every blob whose commit returned is intact, every record that was covered by a finalize or whose partition had been idle for the idle timeout (with storage working) is stored, and no record is stored twice unless storage reported failure for a write it had applied. "
     "No partly written blob is visible to readers. "
     "Processes started afterwards continue the dataset without overwriting or repeating what is there.",
     ["crash_points", "schedules", "fault_sequences", "histories"],
     "1-2 processes with up to three lives each that crash at any step, at any storage operation or in the middle of a write; storage that fails or is slow; all formats, pool capacities, idle timeouts and blob sizes; disk, object store, GCS and MinIO back ends.",
     "Tests never kill the process; what survives depends on the exact step at which it dies.",
     [SW, WP, BW, IW, DSK],
     [("attendant commits writers idle longer than idle_timeout_seconds", SW), ("blob names unique to node, process and time", IW), ("written under a hidden name, then renamed", DSK)],
     ["blobs in the store after the crash", "records a Reader returns"])
prop("C25", "Reading changes nothing, and writing adds only to its own dataset",
     "Opening, iterating, resuming or dropping Readers leaves everything in storage exactly as it was, however they fail, and leaves no temporary file behind once their results are dropped. "
     "A Writer, BatchWriter or StreamWriter creates files only under the dataset it was given, and neither it nor any Reader, in this process or after another's crash, removes or changes anything already stored. "
     "A Reader given one or more valid_dataset_prefixes, none of which its dataset starts with, raises AccessDenied and touches no storage; one whose dataset starts with any of them is allowed.",
     ["histories", "fault_sequences", "crash_points", "configurations", "schedules"],
     "2-4 datasets with names that begin with one another's, frames in every state, BACKOUT data, unfinished files of other processes and unrelated files; 1-4 processes of Readers in every mode and writers of every kind that fail, are refused records, retry, are abandoned or crash; all four back ends.",
     "Tests look at what they read or wrote, never at everything else that is stored, nor at what failed, abandoned or crashed users of it leave behind.",
     [RD, IR, BAT, SW, BW, IW, DSK, "mabel/data/internals/storage_classes/storage_class_disk.py", "mabel/adapters/google/google_cloud_storage_writer.py", "mabel/adapters/minio/minio_writer.py"],
     [("prefix check before anything else", RD), ("blob names below the dataset", IW), ("temporary file removed with its set", "mabel/data/internals/storage_classes/storage_class_disk.py")],
     ["every stored file and its bytes after each operation", "storage operations of denied Readers"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
