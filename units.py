"""What is verified for which property. UNITS: Verus units (functions of /repo under contract).
PROPS: the stages of each property."""
K = ['crate', 'searchable']
UNITS = {
    'readit': dict(overlays=['base', 'readit'], keep=K + ['readit'], verify=[
        'Iterator for ReadIterator::next', 'ReadIterator::new', 'TIterator for ReadIterator::new',
        'NoOffsetIterator::new', 'Iterator for NoOffsetIterator::next']),
    'fallback': dict(overlays=['base', 'fallback'], keep=K + ['searchable::readfallbackit'], verify=[
        'Iterator for ReadFallbackIterator::next', 'search_marker', 'search_last_marker', 'ReadFallbackIterator::new',
        'TIterator for ReadFallbackIterator::new']),
    'search': dict(overlays=['base', 'search'], keep=K + ['searchable::searchit'], verify=[
        'Iterator for SearchIterator::next', 'SearchIterator::search', 'TIterator for SearchIterator::new']),
    'rev': dict(overlays=['base', 'rev'], keep=K + ['searchable::searchit'], verify=[
        'Iterator for RevSearchIterator::next', 'RevSearchIterator::search', 'TIterator for RevSearchIterator::new']),
    'grep': dict(overlays=['base', 'rev', 'grep'], keep=K + ['searchable::searchit', 'searchable::grepit'], verify=[
        'Iterator for GrepIterator::next', 'GrepIterator::search', 'GrepIterator::new']),
    'regexm': dict(overlays=['base', 'rev', 'grep', 'regexm'], keep=K + ['searchable::searchit', 'searchable::grepit'], verify=[
        'Iterator for RegExMatcherIterator::next', 'RegExMatcherIterator::capture', 'RegExMatcherIterator::new']),
    'contained': dict(overlays=['base', 'contained'], keep=K, verify=['ContainedBySearch::contained_by', 'ContainedBySearch::new']),
    'partition': dict(overlays=['base', 'contained', 'partition'], keep=K, verify=['partition_from']),
    'buffer': dict(overlays=['base', 'contained', 'partition', 'buffer'], keep=K + ['rapiddlt::dltbuffer'],
                   also={'rapiddlt': 'rapiddlt/src/lib.rs'}, verify=[
        'DltBuffer::mmap_file', 'DltBuffer::read_file', 'DltBuffer::len', 'DltBuffer::as_slice', 'DltBuffer::partition']),
    'dlt': dict(overlays=['base', 'fallback', 'readit', 'dlt'], keep=K + ['searchable::readfallbackit', 'readit', 'rapiddlt', 'rapiddlt::dlt_v1'],
                also={'rapiddlt': 'rapiddlt/src/lib.rs'}, verify=[
        'try_read', 'FromBytesReadableTrait for DltEntry::try_read', 'FromBytesReadableTrait for DltEntry::len', 'FromBytesReadableTrait for DltEntry::max_len',
        'FromBytesReadableTrait for DltStorageEntry::try_read', 'FromBytesReadableTrait for DltStorageEntry::len', 'FromBytesReadableTrait for DltStorageEntry::max_len',
        'SearchableMarkerTrait for DltStorageEntry::marker', 'SearchableMarkerTrait for DltStorageEntry::try_read_valid_marker',
        'DltStandardHeader::size', 'DltStandardHeader::length', 'DltStorageHeader::size', 'dltit', 'dltit_offset']),
}
ACC = dict(overlays=['base', 'fallback', 'readit', 'dlt', 'acc'], keep=K + ['searchable::readfallbackit', 'readit', 'rapiddlt', 'rapiddlt::dlt_v1'],
           also={'rapiddlt': 'rapiddlt/src/lib.rs'})
UNITS['fields'] = dict(ACC, verify=['DltExtendedHeader::size', 'DltEntry::ecu_id', 'DltEntry::timestamp', 'DltEntry::extended_header', 'DltEntry::payload'])
UNITS['htyp'] = dict(ACC, verify=['DltHTyp::' + n for n in (
    'new', 'is_extended_header', 'is_msb_first', 'is_with_ecu_id', 'is_with_session_id', 'is_with_timestamp', 'version')])
UNITS['info'] = dict(ACC, verify=['MessageType::' + n for n in ('is_verbose', 'message_type', 'info', 'create_message_type')])
UNITS['hdr'] = dict(ACC, overlays=ACC['overlays'] + ['hdr'], verify=[
    'DltStorageHeader::new', 'DltStandardHeader::new', 'DltExtendedHeader::new', 'DltStandardHeader::size', 'DltStandardHeader::length', 'DltStorageHeader::size', 'DltExtendedHeader::size'])
UNITS['dd'] = dict(overlays=ACC['overlays'] + ['hdr', 'dd'], keep=K + ['searchable::readfallbackit', 'readit', 'rapiddlt', 'rapiddlt::dlt_v1', 'dd_dlt'],
                   also={'rapiddlt': 'rapiddlt/src/lib.rs', 'dd_dlt': 'dd_dlt/src/main.rs'}, verify=[
    'main', 'DltStorageHeader::new', 'DltStandardHeader::new', 'DltExtendedHeader::new'])
UNITS['parse'] = dict(UNITS['dlt'], verify=['try_read', 'FromBytesReadableTrait for DltEntry::try_read', 'FromBytesReadableTrait for DltStorageEntry::try_read', 'SearchableMarkerTrait for DltStorageEntry::try_read_valid_marker'])
UNITS['dltit'] = dict(UNITS['dlt'], verify=['dltit', 'dltit_offset'])
# the generator: one text, the contracts of all functions, per property the functions it is about
GEN = dict(overlays=['gen', 'gen_group', 'gen_red', 'gen_laws', 'gen_con'],
           keep=['generator', 'generator::adapter', 'generator::groupby', 'generator::reducer', 'generator::generator'])


def both(*names):
    return [x + n for n in names for x in ('AdapterTrait::', 'Generator::')]


UNITS.update({
    'stages': dict(GEN, verify=[
        'AdapterTrait for NilAdapter::adapt', 'AdapterTrait for NilAdapter::finalize', 'NilAdapter::new', 'Default for NilAdapter::default',
        'AdaptFnTrait for Filter::adapt', 'AdaptFnTrait for Filter::finalize', 'Filter::new',
        'AdaptFnTrait for Map::adapt', 'AdaptFnTrait for Map::finalize', 'Map::new',
        'AdapterTrait for Adapter::adapt', 'Adapter::new', 'ReducerTrait for Reducer::next', 'Reducer::new'] + both('filter', 'map')),
    'groupby': dict(GEN, verify=['AdaptFnTrait for GroupBy::adapt', 'AdaptFnTrait for GroupBy::finalize', 'GroupBy::new'] + both('groupby')),
    'merge': dict(GEN, verify=['AdaptFnTrait for Merge::adapt', 'AdaptFnTrait for Merge::finalize', 'Merge::new'] + both('merge')),
    'split': dict(GEN, verify=['ReducerTrait for Split::next', 'ReducerTrait for Split::finalize', 'Split::new',
                               'ReducerTrait for Reducer::finalize', 'AdapterTrait for Adapter::finalize'] + both('split')),
    'folds': dict(GEN, verify=['ReducerTrait for Fold::next', 'ReducerTrait for Fold::finalize', 'Fold::new',
                               'ReducerTrait for Fork::next', 'ReducerTrait for Fork::finalize', 'Fork::new',
                               'Adapter::count', 'Adapter::sum', 'Adapter::collect', 'Generator::count', 'Generator::sum'] + both('fold', 'fork')),
    'pull': dict(overlays=['gen', 'gen_group', 'gen_red', 'gen_laws', 'gen_from'],
                 keep=['generator', 'generator::adapter', 'generator::groupby', 'generator::reducer', 'fromgenerator'],
                 verify=['Iterator for FromAdaptFn::next', 'FromAdaptFn::new', 'FromAdaptFnCall::groupby', 'FromAdaptFnCall::split']),
})
RIP = dict(overlays=ACC['overlays'] + ['hdr', 'gen', 'gen_group', 'gen_red', 'gen_laws', 'gen_con', 'gen_from', 'contained', 'partition', 'buffer', 'search', 'rev', 'grep', 'rip'],
           keep=K + ['searchable::readfallbackit', 'searchable::searchit', 'searchable::grepit', 'readit', 'rapiddlt', 'rapiddlt::dlt_v1', 'rapiddlt::dltbuffer',
                     'generator', 'generator::adapter', 'generator::groupby', 'generator::reducer', 'generator::generator', 'fromgenerator', 'ripdlt'],
           also={'rapiddlt': 'rapiddlt/src/lib.rs', 'ripdlt': 'ripdlt/src/main.rs'})
UNITS['counts'] = dict(RIP, verify=['count', 'histogram_payload', 'histogram_message', 'mstp_info_histogram', 'count_hello_world_grepit', 'histogram_hello_world', 'count_hello_world', 'count_hello_world_raw'])
UNITS['lives'] = dict(RIP, verify=['lifecycle_histogram', 'lifecycle_iter', 'lifecycle_itertools', 'lifecycle_splitit', 'continuous_timestamp_histogram'])
UNITS['parallel'] = dict(RIP, overlays=RIP['overlays'] + ['par'], verify=['multithreaded', 'par_continuous_timestamp_histogram', 'par_timestamp_splitit'])
UNITS['multi'] = dict(RIP, overlays=RIP['overlays'] + ['par'], verify=['multithreaded'])
for p in ('23', '24', '26', '27'):
    UNITS['program' + p] = dict(RIP, overlays=RIP['overlays'] + ['par', 'rmain', 'rmain' + p], verify=['main'])
UNITS['periods'] = dict(RIP, verify=['timestamp_splitit', 'merge_overlapping_timestamps'])

SLICE = 'input slices of at most 2^40 bytes (CBMC object size; the code reads the first 20 bytes and the length only)'
ZERO = 'the bytes of a header are its value (ref_from_prefix, layout): assumed in Verus, verified through by Kani'
LAYOUT = 'zerocopy and byteorder are executed as they are (verified through, not assumed)'
REC = ('record types obey the laws of the trait contracts (parse within bounds, prefix-stable, longer than the marker, at most max_len; marker unbordered): '
       'discharged for DltStorageEntry and DltEntry by C06 (unit dlt), assumed of other implementors')
MEM = 'memchr finders return the first / last occurrence (assumed specification)'
RGX = 'the regex crate: captures are within the haystack (assumed specification); the leftmost-first language semantics is its own'
ITER = 'vstd specification of Iterator (prophetic sequence of items)'

FILES = ('std::fs::File::open, BufReader, read_to_end and memmap (assumed specifications: reading to the end gives all bytes of the opened file or an error, '
         'mapping gives its bytes); the file does not change while it is used')
CLOS = 'closures given by the user end and accept the items that reach them (their results are arbitrary)'
CLONE = 'clone gives an equal value'
KEYS = 'the keys obey the order laws (Ord is a total order)'
BTREE = 'std::collections::BTreeMap (vstd specification; entry/or_insert, into_iter: assumed specifications)'
FOLDF = 'the fold function carries no state of its own (FnMut is treated as its ensures)'

EVAL = ('main of ripdlt is under contract with stand-ins for std::env::args, print!/println! (ghost state: the values in the lines printed; the text between them is compared by the search only), '
        'Result::expect where a file is opened (an error may end the program), [String]::join, String::from_utf8_lossy; no buffer has more than isize::MAX bytes, there is a slice of any bytes (of up to 65535), usize has 64 bits')

RAYON = 'stand-in for rayon (into_par_iter, map, sum, reduce): each part is processed once by the closure, sum adds the results, reduce combines neighbouring results in any grouping with any number of identities; std::thread::available_parallelism succeeds'

PROPS = {
    'C01': dict(level='proof', kani=[('kani', ['c01_try_read_storage_entry', 'c01_try_read_valid_marker', 'c01_try_read_valid_marker_total', 'c01_try_read_message'])],
                kani_functions=['DltStorageEntry::try_read', 'DltStorageEntry::try_read_valid_marker', 'DltEntry::try_read'], verus=['parse'], second=['parse'], engine=True, assumptions=[SLICE, LAYOUT], trusted=['Kani 0.68 / CBMC', 'unit parse: ' + ZERO]),
    'C02': dict(level='proof', kani=[('kani', ['c02_ecu_id', 'c02_timestamp', 'c02_extended_header', 'c02_payload', 'c02_fields_of_read_record'])],
                kani_functions=['DltEntry::ecu_id', 'DltEntry::timestamp', 'DltEntry::extended_header', 'DltEntry::payload'], verus=['fields', 'htyp'], second=['fields', 'htyp'], engine=True, assumptions=[SLICE, LAYOUT], trusted=['Kani 0.68 / CBMC', 'unit fields: ' + ZERO]),
    'C03': dict(level='proof', kani=[('kani', ['c03_decode', 'c03_encode'])], kani_functions=['DltHTyp accessors and builder'], verus=['htyp'], second=['htyp'], engine=True, assumptions=[], trusted=['Kani 0.68 / CBMC']),
    'C04': dict(level='proof', kani=[('kani', ['c04_decode', 'c04_encode'])], kani_functions=['MessageType decode and encode'], verus=['info'], second=['info'], engine=True, assumptions=[], trusted=['Kani 0.68 / CBMC', 'unit info: from_u8 (num_derive) gives the variant with that discriminant']),
    'C05': dict(level='proof', kani=[('kani', ['c05_storage_header', 'c05_standard_header', 'c05_extended_header', 'c05_record_round_trip'])],
                kani_functions=['header constructors, as_bytes, accessors'], verus=['hdr'], second=['hdr'], engine=True, assumptions=[LAYOUT], trusted=['Kani 0.68 / CBMC']),
    'C06': dict(level='proof', kani=[('kani', ['c06_marker', 'c06_length_of_records', 'c06_length_of_messages', 'c06_readers_agree', 'c06_prefix_stable'])], verus=['dlt'], second=['dlt'],
                kani_functions=['FromBytesReadableTrait for DltStorageEntry / DltEntry', 'SearchableMarkerTrait for DltStorageEntry'], engine=True, assumptions=[SLICE, LAYOUT], trusted=['Kani 0.68 / CBMC', 'unit dlt: the bytes of a header are its value (ref_from_prefix, layout)']),
    'C07': dict(level='proof', verus=['readit'], engine=True, assumptions=[REC, ITER]),
    'C08': dict(level='proof', verus=['fallback', 'readit', 'dltit'], engine=True, assumptions=[REC, MEM, ITER]),
    'C09': dict(level='proof', verus=['search', 'fallback'], engine=True, assumptions=[REC, MEM, ITER]),
    'C10': dict(level='proof', verus=['rev', 'fallback'], engine=True, assumptions=[REC, MEM, ITER, 'a position of usize::MAX is the reserved "exhausted" value']),
    'C11': dict(level='proof', verus=['grep', 'rev', 'fallback'], engine=True, assumptions=[REC, MEM, RGX, ITER]),
    'C12': dict(level='proof', verus=['regexm', 'grep', 'rev', 'fallback'], engine=True, assumptions=[REC, MEM, RGX, ITER]),
    'C13': dict(level='proof', verus=['contained', 'fallback'], engine=True, assumptions=[REC, MEM]),
    'C14': dict(level='proof', verus=['partition', 'contained', 'fallback', 'buffer'], engine=True, assumptions=[REC, MEM, 'the part size is positive']),
    'C15': dict(level='proof', verus=['partition', 'contained', 'fallback'], engine=True, assumptions=[REC, MEM, 'the part size is positive']),
    'C16': dict(level='proof', verus=['buffer'], engine=True, assumptions=[FILES, REC]),
    'C17': dict(level='proof', verus=['stages'], engine=True, assumptions=[CLOS]),
    'C18': dict(level='proof', verus=['groupby'], engine=True, assumptions=[CLOS, CLONE]),
    'C19': dict(level='proof', verus=['merge'], engine=True, assumptions=[CLOS, CLONE, KEYS, BTREE, 'the key function gives one key per element']),
    'C20': dict(level='proof', verus=['split'], engine=True, assumptions=[CLOS, CLONE, KEYS, BTREE]),
    'C21': dict(level='proof', verus=['folds'], engine=True, assumptions=[CLOS, CLONE, FOLDF, 'fewer than 2^64 items are counted; sums are representable']),
    'C22': dict(level='proof', verus=['pull'], engine=True, assumptions=[CLOS, CLONE, KEYS, ITER, 'the source iterator obeys the iterator laws']),
    'C23': dict(level='proof', verus=['periods', 'program23'], kani=[('kani_rip', ['c23_merge_is_union', 'c23_merge_is_symmetric'])], kani_functions=['merge_overlapping_timestamps'], engine=True, programs=True, assumptions=[
        LAYOUT, 'the arguments are periods (the first record is not later than the last)', CLONE, BTREE, EVAL], trusted=['Kani 0.68 / CBMC']),
    'C24': dict(level='proof', verus=['counts', 'multi', 'partition', 'program24'], engine=True, programs=True, assumptions=[MEM, RGX, CLONE, BTREE, ITER, EVAL, RAYON]),
    'C25': dict(level='proof', verus=['dd', 'htyp', 'info'], second=['htyp', 'info'], kani=[('kani', ['c03_encode', 'c04_encode', 'c05_storage_header', 'c05_standard_header', 'c05_extended_header'])], engine=True, programs=True, assumptions=[
        'the ids given are 4 bytes long; fewer than 2^32 bytes of input; reading standard input does not fail',
        'stand-ins for std::env::args, stdin().lock().read_exact and stdout().write_all (the bytes read and written so far as ghost state), str::parse::<u16>'],
        trusted=['the layout of the header types: assumed in Verus, discharged by the Kani harnesses of this check', 'Kani 0.68 / CBMC']),
    'C26': dict(level='proof', verus=['lives', 'program26'], engine=True, programs=True, assumptions=[CLONE, BTREE, ITER, EVAL]),
    'C27': dict(level='proof', verus=['parallel', 'partition', 'buffer', 'program27'], engine=True, programs=True, assumptions=['the contracts of the sequential evaluations (discharged in the units counts, lives and periods by C23, C24 and C26)', REC, MEM, RGX, CLONE, BTREE, ITER, EVAL, RAYON, 'the default values of usize and (BTreeMap, usize) are 0 and (empty, 0)']),
}
