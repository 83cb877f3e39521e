#!/usr/bin/env python3
"""writes properties.jsonl (the text of the properties, one place to edit)"""
import json, os
V1 = 'rapiddlt/src/dlt_v1.rs'
def P(id, title, statement, over, text, why, files, mech, observe):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None))
A = [
P('C01', 'Reading one record is total and exact',
  'Reading a stored record or a bare message from any byte slice never panics; it succeeds exactly when the marker (for records that are searched for), a complete storage header, a standard header with a length field of at least 4 and all the bytes that length announces are present. The record that is returned has the bytes of the input: header fields, ECU, timestamp and message body are those at their format offsets, and the consumed size is 16 (storage header) plus the length field.',
  ['inputs'], 'every byte slice of every length, including truncated, corrupt and adversarial ones',
  'The tests read a handful of well-formed records from sample files; the accept/reject boundary over every length field, truncation point and marker corruption is a quantifier over all byte strings.',
  [V1], [('record and message readers', V1 + ': impl FromBytesReadableTrait for DltStorageEntry / DltEntry, try_read, try_read_valid_marker')], ['return value of reading a record']),
P('C02', 'Optional message fields are located by the header flags',
  'For every message that was read, the ECU id, timestamp, extended header and payload accessors return a value exactly when the header flag announces the field and the message is long enough, and the value is the big-endian content at the offset that the preceding optional fields determine. The payload is everything behind the headers that are announced. No accessor panics, whatever the message contains.',
  ['inputs'], 'every combination of header flags and every message body, also shorter than its flags announce',
  'Tests look at sample messages with one or two flag combinations and never at bodies shorter than announced.',
  [V1], [('offset arithmetic of the optional fields', V1 + ': impl DltEntry, ecu_id, timestamp, extended_header, payload')], ['accessor return values']),
P('C03', 'The header type byte round-trips',
  'Building a header type from five flags and a version (0 to 7) and reading the flags and version back gives the same six values, and the built byte has exactly the bits of the format. Conversely every byte decodes to the flags and version its bits state.',
  ['inputs'], 'all 256 bytes and all combinations of flags and versions',
  'Tests build one or two combinations; independence of the bits is a statement over all of them.',
  [V1], [('flag masks', V1 + ': DltHTyp::new and accessors, DltHTypMask')], ['flags, version, serialised byte']),
P('C04', 'The message info byte round-trips',
  'Decoding any message info byte yields the verbose flag of bit 0 and, for the assigned combinations of type (bits 1-3) and type info (bits 4-7), exactly that message type, and no type for every unassigned combination. Encoding any message type with a verbose flag yields the byte that decodes to it.',
  ['inputs'], 'all 256 bytes and all message types with both verbose flags',
  'Tests decode the log and control messages of sample files; the mask and shift of rare types (trace, network) and unassigned values are not exercised.',
  [V1], [('message info decoding and encoding', V1 + ': MessageType, DltMessageType, create_message_type, info, is_verbose')], ['decoded type, encoded byte']),
P('C05', 'Headers serialise to the format and read back unchanged',
  'Every storage, standard and extended header serialises to the bytes of the DLT v1 layout (sizes 16, 4 and 10, little-endian storage time, big-endian length) for all field values. A record assembled from such headers and any matching body reads back with the same field values and size.',
  ['inputs'], 'all values of all header fields and all bodies of matching length',
  'Tests write and read back a single set of values, which cannot show byte order and layout for all values.',
  [V1], [('layout of the header types', V1 + ': DltStorageHeader, DltStandardHeader, DltExtendedHeader (AsBytes/FromBytes)')], ['serialised bytes', 'fields read back']),
P('C06', 'The record type keeps the laws that search and partitioning rely on',
  'For every input, a record that is read has a reported length equal to the bytes consumed, longer than the marker, within the input and no larger than the declared maximum record size. Both ways of reading agree wherever the marker stands, bytes behind a record never change the result, and the marker cannot overlap itself.',
  ['inputs'], 'every byte slice and every cut of it',
  'The generic algorithms silently lose or duplicate records if a law breaks for one rare length (for example the largest message), which no sample file contains.',
  [V1, 'matchit/src/lib.rs', 'matchit/src/searchable/mod.rs'], [('record trait', V1 + ': len, max_len, marker, try_read_valid_marker of DltStorageEntry and DltEntry')], ['len, max_len, marker, read results']),
P('C07', 'Plain iteration returns the chain of adjacent records',
  'Iterating plainly from an offset returns, in order and with its offset, every record of the maximal chain of records that starts at that offset and in which each begins where the previous one ends, and then ends. It neither panics nor skips or repeats a record for any input and any start offset, and dropping the offsets changes nothing else.',
  ['inputs', 'histories'], 'every byte slice, every start offset including beyond the end, every number of calls',
  'Tests count records of sample files; broken tails, offsets beyond the end and calls after the end are not covered.',
  ['matchit/src/readit.rs', 'matchit/src/lib.rs'], [('plain iterator', 'matchit/src/readit.rs: ReadIterator::next'), ('offset removal', 'matchit/src/lib.rs: NoOffsetIterator')], ['items of the iterator']),
P('C08', 'Iteration with resynchronisation finds every record of the greedy scan',
  'Iterating with fallback returns exactly the records of the greedy left-to-right scan: at each position the record that starts there if there is one, otherwise the scan goes on at the next marker. Corrupt or truncated regions of any length and number neither end the iteration early nor hide a later record, offsets are exact, and memory for the call stack does not grow with the input.',
  ['inputs', 'histories'], 'every byte slice (any mix of records, garbage, partial markers and nested markers) and every start offset',
  'Tests use a few concatenated and one skipped file; the space of corruptions is unbounded.',
  ['matchit/src/searchable/readfallbackit.rs', 'matchit/src/searchable/mod.rs', V1], [('resynchronisation', 'matchit/src/searchable/readfallbackit.rs: ReadFallbackIterator::next'), ('marker search', 'matchit/src/searchable/mod.rs: search_marker, search_last_marker'), ('entry points', V1 + ': dltit, dltit_offset')], ['items of the iterator']),
P('C09', 'Marker search returns the same records as the greedy scan',
  'The search-based iterator returns exactly the records, with offsets, that the greedy scan from the same start offset returns, for every input; it ends after the last one and never overflows the stack however many false markers lie in between.',
  ['inputs', 'histories'], 'every byte slice and every start offset',
  'Tests compare counts on sample files without false markers.',
  ['matchit/src/searchable/searchit.rs'], [('forward search', 'matchit/src/searchable/searchit.rs: SearchIterator::search, next')], ['items of the iterator']),
P('C10', 'Reverse search returns the readable records in strictly descending order',
  'Searching backwards from an offset returns, in strictly descending order and each once, every position at which a marker stands that ends at or before the offset and from which a record can be read, together with that record (also records nested in others). It ends after the first one in the file and neither panics nor overflows the stack for any input or offset.',
  ['inputs', 'histories'], 'every byte slice and every start offset, also beyond the end',
  'Tests run over one file from its end; false markers, offsets inside records and beyond the end are not covered.',
  ['matchit/src/searchable/searchit.rs', 'matchit/src/searchable/mod.rs'], [('backward search', 'matchit/src/searchable/searchit.rs: RevSearchIterator::search, next')], ['items of the iterator']),
P('C11', 'Grep returns every record around a match, in order and once',
  'For every pattern, input and start offset, grep returns in ascending order and without repetition exactly the records around matches: going through the successive matches of the pattern, the record at the last marker in front of the match is returned if it can be read and extends over the whole match, and the search resumes behind it; otherwise the next match is tried. Empty matches, matches outside of any record and matches across record ends neither panic, loop forever nor end the search.',
  ['inputs', 'histories'], 'every valid pattern, every byte slice, every start offset',
  'Tests grep one literal-like pattern in clean files; matches in garbage, across records and of length zero never occur.',
  ['matchit/src/searchable/grepit.rs', 'matchit/src/searchable/searchit.rs'], [('grep', 'matchit/src/searchable/grepit.rs: GrepIterator::search, next'), ('record lookup', 'matchit/src/searchable/searchit.rs: RevSearchIterator')], ['items of the iterator']),
P('C12', 'Capturing search returns the captured range of each enclosed match',
  'For every pattern with a capture group, input and start offset, the capturing search returns, in the order of grep, the position of the record around each match together with the exact range of the first group in that match, at most one per record. A match in which the group does not take part or that no record encloses is passed over without panicking, looping or losing a later match.',
  ['inputs', 'histories'], 'every valid pattern with its groups, every byte slice, every start offset',
  'Tests use one pattern whose groups always take part.',
  ['matchit/src/searchable/grepit.rs'], [('captures', 'matchit/src/searchable/grepit.rs: RegExMatcherIterator::capture, next')], ['items of the iterator']),
P('C13', 'The outermost enclosing record is found, or none exists',
  'For every input and byte range, asking which record contains the range returns a record that begins before the range, extends over it and is not itself started inside another such record, and returns none exactly when there is no such record. Nested records in payloads, adjacent records and ranges at either end of the input are decided correctly, and no input or range makes it panic, overflow the stack or never return.',
  ['inputs'], 'every byte slice (records nested to any depth in payloads, false markers) and every range',
  'Tests use one nested file; nesting that ends inside or overlaps the range or a marker is not covered.',
  ['matchit/src/lib.rs'], [('enclosing search', 'matchit/src/lib.rs: ContainedBySearch::contained_by')], ['return value']),
P('C14', 'Partitions tile the input without loss, gap or overlap',
  'Partitioning any input into any positive number of parts returns non-empty consecutive parts whose concatenation is the input, byte for byte. It always ends, also for inputs smaller than the number of parts and for records larger than a part.',
  ['inputs', 'configurations'], 'every byte slice and every positive number of parts',
  'Tests add up part lengths for two numbers on clean generated files that are not even in the repository.',
  ['matchit/src/lib.rs', 'rapiddlt/src/dltbuffer.rs'], [('split placement', 'matchit/src/lib.rs: partition_from'), ('buffer entry point', 'rapiddlt/src/dltbuffer.rs: DltBuffer::partition')], ['the returned parts']),
P('C15', 'Partitioned processing sees the same records as sequential processing',
  'No partition border lies inside a record that sequential iteration would return, so reading the parts one after the other with resynchronisation yields the same sequence of records, at the same positions, as reading the whole input, for any number of parts. Parallel processing by parts therefore gives the same counts as sequential processing.',
  ['inputs', 'configurations', 'schedules'], 'every byte slice, every positive number of parts, parts processed in any order',
  'Tests compare totals for two part numbers on one clean file; records nested in payloads and false markers at borders are what breaks it.',
  ['matchit/src/lib.rs'], [('split placement', 'matchit/src/lib.rs: partition_from, ContainedBySearch')], ['records read from the parts']),
P('C16', 'A loaded file is exactly the file, and errors are reported',
  'Loading a file by reading or by mapping yields a buffer whose length and bytes are those of the file, identical for both ways; a file that cannot be opened or read is reported as an error instead of a panic or a partial buffer. Partitioning the buffer is partitioning its bytes.',
  ['inputs', 'fault_sequences'], 'every non-empty file content and every failing path (missing, directory, unreadable)',
  'The tests of buffers need generated multi-gigabyte files that are absent, and never provoke an error.',
  ['rapiddlt/src/dltbuffer.rs'], [('loading', 'rapiddlt/src/dltbuffer.rs: DltBuffer::mmap_file, read_file, len, as_slice, partition')], ['buffer bytes, error results']),
P('C17', 'Filter and map pipelines equal filter and map on the sequence',
  'For every input sequence and every chain of filter and map stages, the reducer at the end receives exactly the sequence that the corresponding list operations produce, in order, each element once. Stages without stored elements add nothing at the end.',
  ['inputs', 'programs', 'histories'], 'every input sequence, every chain of stages, every pure stage function',
  'Tests run single chains on ten numbers.',
  ['matchit/src/generator/adapter.rs', 'matchit/src/generator/generator.rs'], [('stages', 'matchit/src/generator/adapter.rs: Filter, Map, Adapter::adapt, NilAdapter')], ['what the reducer receives']),
P('C18', 'Grouping returns the first and last element of each maximal run',
  'For every input sequence and relation, grouping cuts the sequence into maximal runs of elements in which each neighbouring pair is related, and emits first and last of every run in order, the last run at the end; a run of a single element is emitted exactly when the element is related to itself. No run is lost, duplicated or merged, wherever the groups end.',
  ['inputs', 'histories'], 'every input sequence and every (also irreflexive or non-transitive) relation',
  'Tests group one sequence of ten numbers by one reflexive relation.',
  ['matchit/src/generator/groupby.rs'], [('run state machine', 'matchit/src/generator/groupby.rs: GroupBy::adapt, finalize')], ['emitted groups']),
P('C19', 'Merging folds each element into the merged set and emits it once',
  'For every input sequence, each arriving element replaces the first stored element (in key order) that the merge function combines it with by the combination, or is stored under its own key if it combines with none. At the end exactly the stored elements are emitted, once each in key order, and nothing before.',
  ['inputs', 'histories'], 'every input sequence, merge function and key function',
  'Tests merge one list of intervals.',
  ['matchit/src/generator/groupby.rs'], [('merge step and drain', 'matchit/src/generator/groupby.rs: Merge::adapt, finalize')], ['emitted elements']),
P('C20', 'Splitting reduces every key on its own and drains all stages',
  'For every input sequence and key function, splitting gives one result per key that occurs, namely the result of reducing exactly the elements with that key in their order, as if processed alone. When the input ends, elements still held back by stages (open groups, merged sets) are passed on through all following stages to every reducer before its result is taken.',
  ['inputs', 'programs', 'histories'], 'every input sequence, key function, reducer and chain of buffering stages',
  'Tests split one small sequence; draining through several buffering stages is not covered.',
  ['matchit/src/generator/reducer.rs', 'matchit/src/generator/adapter.rs'], [('per-key reducers', 'matchit/src/generator/reducer.rs: Split::next, finalize'), ('draining', 'matchit/src/generator/reducer.rs: Reducer::finalize; matchit/src/generator/adapter.rs: Adapter::finalize')], ['result map']),
P('C21', 'Folds and forks: every reducer sees every element exactly once, in order',
  'Folding gives the left fold of the function over the received elements from the initial value; counting, summing and collecting give the number, the sum and the list of them. A fork gives both reducers every element in order, and its result is the pair of what each gives alone.',
  ['inputs', 'programs', 'histories'], 'every input sequence and fold function, every pair of reducers',
  'Tests fold and fork ten numbers.',
  ['matchit/src/generator/reducer.rs', 'matchit/src/generator/adapter.rs', 'matchit/src/generator/generator.rs'], [('reducers', 'matchit/src/generator/reducer.rs: Fold, Fork'), ('shorthands', 'matchit/src/generator/generator.rs: count, sum; adapter.rs: count, sum, collect')], ['reduced value']),
P('C22', 'Pulling through an iterator equals pushing through a pipeline',
  'For every source iterator, wrapping it in a stage and pulling gives the same sequence of outputs as pushing its items into the stage and draining it, and grouping or splitting called on an iterator gives the result of the corresponding pipeline. After its end the wrapped iterator stays at the end.',
  ['inputs', 'histories', 'programs'], 'every source sequence and every stage, any number of pulls',
  'One test counts the groups of ten numbers.',
  ['matchit/src/fromgenerator.rs'], [('pull adapter', 'matchit/src/fromgenerator.rs: FromAdaptFn::next, FromAdaptFnCall')], ['items of the iterator']),
P('C23', 'Overlapping periods of continuous recording are united, others are not',
  'The ripdlt evaluation split_timestamp combines two periods of recording of one ECU (each from a first to a last record with non-decreasing storage seconds) exactly when they have a second in common, in whichever order they are met. The combined period starts with the earlier of the two starts and ends with the later of the two ends, and never ends before it starts. For every file, split_timestamp reports of each ECU id of the storage headers how many of its periods, each united on arrival with the first stored one it meets, have which length in seconds, and its number of records.',
  ['inputs'], 'every file; every pair of periods, in every relative position: apart, touching in one second, overlapping, nested, equal',
  'The repository has no test of this; sample recordings show few of the relative positions of two periods and never the extremes of the clock.',
  ['ripdlt/src/main.rs'], [('interval union', 'ripdlt/src/main.rs: merge_overlapping_timestamps'), ('evaluation', 'ripdlt/src/main.rs: timestamp_splitit')], ['combined period; output of ripdlt split_timestamp']),
P('C24', 'Counts and histograms of a recording are those of its records',
  'For every file, the ripdlt commands report of the records that iteration with resynchronisation finds: count and par_count their number; histogram_payload_size and histogram_message_size how many have which payload length (0 if the message has no payload) and which total length (storage header included); histogram_message_type how many of those with extended header are verbose or not and of which message type; count_hello_world (and its parallel form) how many have the text Hello World in the payload. count_hello_world_raw gives the number of non-overlapping occurrences of it in the file, count_hello_world_grepit the number of records around a match of H.* World, and histogram_hello_world how many of these start in which 100 MB of the file. No command panics on any content.',
  ['inputs'], 'every file content, read or mapped',
  'The repository has no tests of the program; records without payload, extended header or with unknown type, damaged files and offsets beyond 100 MB are not in the samples.',
  ['ripdlt/src/main.rs'], [('counts', 'ripdlt/src/main.rs: count, count_hello_world, count_hello_world_raw, count_hello_world_grepit'), ('histograms', 'ripdlt/src/main.rs: histogram_payload, histogram_message, mstp_info_histogram, histogram_hello_world')], ['standard output and exit status of ripdlt']),
P('C25', 'dd_dlt writes exactly one well-formed record per chunk of its input',
  'For four-byte ids and a payload size from 1 to 65517, dd_dlt writes nothing but one DLT record per complete chunk of that many bytes of standard input, in order and with that chunk as payload: marker, storage time (record i is at i/100 seconds and (i%100)*10000 microseconds), the given ECU id, a header type that announces timestamp and extended header, the message counter (i modulo 256), the length, the timestamp, a verbose log-info message of the given application. Its output therefore reads back as exactly these records. A payload size of 0, above 65517 or no number is refused before anything is written, and the only other errors are those of writing.',
  ['inputs'], 'every payload size, every input of every length (also more than 256 chunks), every division of input and output into reads and writes',
  'The program has no tests; wrap-around of the counter, lengths near the 16-bit limit, partial reads and writes and the record arithmetic are statements over all sizes and numbers of messages.',
  ['dd_dlt/src/main.rs', V1], [('conversion loop', 'dd_dlt/src/main.rs: main'), ('headers', V1 + ': DltStorageHeader::new, DltStandardHeader::new, DltExtendedHeader::new, DltHTyp::new')], ['standard output and exit status of dd_dlt']),
P('C26', 'Lifecycles are the maximal runs of messages whose time does not go back',
  'For every file, the messages with a timestamp are cut into lifecycles: maximal runs in which no timestamp is smaller than the one in front of it (and, for histogram_lifecycles, the ECU id of the message is the same; for split_lifecycles, among the messages of one ECU id of the storage headers only). histogram_lifecycles and split_lifecycles report how many lifecycles have which length, last minus first timestamp in whole seconds (timestamps count 0.1 ms), split_lifecycles per ECU and with the number of its messages; iter reports how many last at least 1800 seconds, itertools how many neighbouring messages with a timestamp are at least that far apart without going back. histogram_timestamp does the same for all records with the seconds of the storage headers. Every lifecycle is counted once, also the last one and those of a single message, and no command panics on any content.',
  ['inputs'], 'every file content: messages with and without timestamp in any order, any number of ECUs, any times',
  'The repository has no tests of the program; lifecycles that end at the end of the file, equal times, interleaved ECUs and extreme times are not in the samples.',
  ['ripdlt/src/main.rs'], [('lifecycles', 'ripdlt/src/main.rs: lifecycle_histogram, lifecycle_splitit, lifecycle_iter'), ('storage times', 'ripdlt/src/main.rs: continuous_timestamp_histogram')], ['standard output and exit status of ripdlt']),
P('C27', 'Parallel evaluation reports the sum over parts that cut no record',
  'For every file, the parallel commands of ripdlt work on a division of the file into consecutive parts that join to the file and cut no record, and report the sums of what the sequential command reports of the parts, in whichever order the threads finish and results are combined: par_count, par_count_hello_world, par_count_hello_world_raw and par_count_hello_world_grepit one number; par_histogram_timestamp for every length the number of periods; par_split_timestamp for every ECU the number of its records and for every length the number of its periods. An ECU or length is reported exactly when a part has it. No number is lost, counted twice or overflows.',
  ['inputs', 'schedules'], 'every file content, every number of processors, every grouping and order of the combination of partial results',
  'The repository has no tests of the program; the grouping of partial results, ECUs and lengths that occur in several parts only, or in one only, depend on file and schedule.',
  ['ripdlt/src/main.rs'], [('parallel evaluation', 'ripdlt/src/main.rs: multithreaded, par_continuous_timestamp_histogram, par_timestamp_splitit'), ('division', 'matchit: partition_from; rapiddlt/src/dltbuffer.rs: DltBuffer::partition')], ['standard output and exit status of ripdlt']),
]
import sys
extra = os.path.join(os.path.dirname(__file__), 'properties_extra.py')
if os.path.exists(extra):
    exec(open(extra).read())
open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w').write(''.join(json.dumps(a) + '\n' for a in A))
