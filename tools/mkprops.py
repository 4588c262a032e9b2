import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['asn1crypto/'+f for f in files],mechanism=[dict(name=a,where=b) for a,b in mech],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))

p('C01','A value is recognised only once all of its bytes have arrived',
 'However a byte stream of concatenated BER/DER values is fragmented, delayed or cut off, peeking, parsing and loading refuse with ValueError every proper prefix of a value, and once its last byte is there report exactly that value (its header, contents, trailer and total length) no matter what bytes follow. A reader that retries as data arrives therefore recovers exactly the values that were sent, in order, and never one that was cut off. With strict parsing or loading, any byte after the value is refused with ValueError and none is refused when there is no such byte.',
 ['schedules','crash_points','inputs'],'every sequence of values (definite and indefinite length, short and long tag and length forms, nested), every chunking and delay of their bytes, and every byte offset at which the connection dies',
 'test_parser.py tries a handful of fixed truncations; the guarantee quantifies over every cut point and every delivery schedule of every encoding.',
 ['parser.py','core.py'],[('_parse length checks and end-of-contents scan','asn1crypto/parser.py:_parse'),('strict handling','asn1crypto/parser.py:parse, asn1crypto/core.py:_parse_build')],
 observe=['parser.peek()','parser.parse()','Asn1Value.load()'])
p('C02','Damaged input yields a value, ValueError or TypeError - nothing else',
 'Whatever bytes of a stored encoding are flipped, overwritten, cut out, duplicated, inserted or torn off, loading it and then reading everything reachable from it (native conversion, fields, iteration, derived attributes, dumping, forced re-encoding, debugging output) either returns an answer or raises ValueError or TypeError. No other exception escapes (adversarially deep nesting aside), and every such operation ends within work bounded by the size of the input.',
 ['fault_sequences','inputs'],'every structure type the library ships, every valid encoding of it and every sequence of storage faults applied to those bytes',
 'The tests load well-formed fixtures and a few hand-made bad values; damage can hit any byte of any structure and only shows when the damaged part is lazily read.',
 ['core.py','parser.py','x509.py','keys.py','cms.py','ocsp.py','crl.py','csr.py','tsp.py','pkcs12.py','algos.py'],
 [('error translation while parsing and building','asn1crypto/core.py:_parse_children, _build'),('native decoding of every primitive','asn1crypto/core.py:*.native'),('spec callbacks','asn1crypto/keys.py, cms.py, algos.py')],
 observe=['load()','.native','[] / iteration','public properties','.dump(force=True)','.debug()'])
p('C03','Reading never changes a value and answers do not depend on read order',
 'For every valid or damaged encoding and every history of read-only operations on a loaded value (native conversion, field and element access, iteration, length, comparison, derived attributes, printing, dumping, copying, pickling), each read gives the same answer or refusal that it gives on a freshly loaded value. In particular the dumped bytes stay identical to the loaded definite-length bytes, comparing or printing values does not alter them, and a read that was refused once is never later answered with partial data; only giving an undetermined opaque string or Any another type, forcing re-encoding, and copying a value already found to be damaged are outside this.',
 ['histories','inputs','fault_sequences'],'every structure type, every valid or byte-damaged encoding, every order and repetition of read-only operations over the whole value tree',
 'Tests read each fixture in one fixed order; parsing is lazy and answers are cached in dozens of places, so a wrong cache only shows for particular read orders or after a particular failed read.',
 ['core.py','x509.py','crl.py','ocsp.py','csr.py','cms.py','keys.py','algos.py','tsp.py'],
 [('lazy children and cached natives','asn1crypto/core.py'),('cached derived attributes','asn1crypto/x509.py:Certificate, Name; asn1crypto/crl.py; asn1crypto/ocsp.py; asn1crypto/keys.py')],
 state=[('children / native caches','lazily filled parse state of a value','asn1crypto/core.py'),('extension caches','derived attribute state','asn1crypto/x509.py, crl.py, ocsp.py')],
 observe=['every public read of a loaded value'])
p('C04','An interrupted read leaves no trace',
 'If any read-only operation on a loaded value is cut short at any point by an exception from outside (a keyboard interrupt or other signal, running out of memory, exhausting the stack), the value stays as good as freshly loaded (also when its only owner had edited it before). Every later read of it, including a retry of the interrupted one, gives the same answer and dumps the same bytes as on a value that was never interrupted; nothing is silently missing, partial or stuck.',
 ['crash_points','fault_sequences','histories'],'every structure type, every history of reads, every point inside the library at which an asynchronous exception can surface, one or several times',
 'No test injects an asynchronous exception; lazily built state is filled in many steps and each gap between two steps is a separate crash point.',
 ['core.py','x509.py','crl.py','ocsp.py','csr.py','cms.py','keys.py','tsp.py'],
 [('publication of lazily parsed state','asn1crypto/core.py:_parse_children, native'),('caching of derived attributes','asn1crypto/x509.py, crl.py, ocsp.py')],
 state=[('lazy parse state','must be complete or absent','asn1crypto/core.py')],observe=['every public read after the interruption'])
p('C05','Threads sharing a loaded value read the same answers as one thread alone',
 'When several threads perform read-only operations on one loaded value at the same time, under every interleaving each operation (other than forcing re-encoding) gives the answer it gives when a single thread reads the value alone, and none fails because of the others. Once the threads are done, the value still reads and dumps exactly as when freshly loaded.',
 ['schedules','histories'],'every structure type, every set of per-thread read histories and every interleaving of their steps',
 'Nothing in the test suite uses threads; lazily parsed and cached state is shared by all readers and the harmful windows are a few bytecodes wide.',
 ['core.py','x509.py','crl.py','ocsp.py','csr.py','cms.py','keys.py','tsp.py'],
 [('lazy parsing and caching on first read','asn1crypto/core.py'),('derived attribute caches','asn1crypto/x509.py, crl.py, ocsp.py')],
 state=[('lazy parse state','shared by all reading threads','asn1crypto/core.py')],observe=['results of concurrent reads','reads after the threads have finished'])
p('C06','First use of a type is safe under concurrency and interruption',
 'The first uses of any structure type (shipped or user-defined), whether by several threads at the same time on unrelated values or cut short by an exception at any point, do not disturb the type. Every value of that type that is being or will later be built, parsed, looked up by name or encoded behaves as in a process where the type was first used alone and undisturbed.',
 ['schedules','crash_points','programs'],'every type definition (fields, tagging, defaults, alternatives, named values, OID-dependent fields), every pair or group of first uses, every interleaving of their steps and every point at which one of them is aborted',
 'Type tables are prepared once per process on first use; tests prepare them single-threaded and undisturbed, and after that the window is closed for the whole process.',
 ['core.py','keys.py','cms.py','algos.py'],[('one-time preparation of type tables','asn1crypto/core.py:Asn1Value.__init__, _setup of Sequence, Set, Choice, ValueMap, BitString'),('normalisation of tagging parameters','asn1crypto/core.py:_tag_type_to_explicit_implicit')],
 state=[('per-type tables','field, alternative, value maps prepared on first use','asn1crypto/core.py'),('set of prepared types','decides whether preparation is skipped','asn1crypto/core.py')],
 observe=['construction, load, native, dump, map/unmap of values of the type'])
p('C07','Any edit history leaves encoding, native form and elements in agreement',
 'After any history of assigning, replacing, deleting and appending fields and elements of a structured value or of structures nested in it (reached by item access or as the chosen alternative), freely interleaved with reads and dumps, the dumped bytes, the native form, the length and every element describe one and the same value: the one a plain model of the edits predicts. The dump is the DER encoding of that value, with defaulted fields omitted, absent optional fields left out and set members in canonical order.',
 ['histories','programs'],'every structure definition (sequences, sets, sequences/sets of, choices, tagging, defaults, optional fields), every starting value (loaded or constructed) and every interleaving of edits and reads',
 'Tests make one or two edits on a value in a known cache state; stale bytes or stale natives need a particular order of reads, edits at different depths and dumps.',
 ['core.py','x509.py','keys.py'],[('mutation tracking and re-encoding','asn1crypto/core.py:Sequence/SequenceOf/Set/SetOf __setitem__, __delitem__, append, _is_mutated, _set_contents'),('native cache upkeep','asn1crypto/core.py')],
 state=[('mutation flags and cached encodings','decide whether bytes are regenerated','asn1crypto/core.py')],observe=['dump()','.native','[] / len / iteration'])
p('C08','A refused edit changes nothing',
 'When setting, assigning, deleting or appending is refused with an exception because the value is unacceptable (wrong type, unknown name, out of range, incomplete, unencodable, missing field, bad index), the object and everything containing it is left exactly as before: same bytes, same native form, same elements, same named or dotted forms. Later operations on it behave as if the refused edit had never been tried.',
 ['histories','fault_sequences','inputs'],'every primitive and structured type, every reachable state of the object, every kind of unacceptable value at every position of an edit history',
 'Tests assert that bad values raise; they do not go on to use the object, and the damage depends on what was cached before the refused edit.',
 ['core.py','x509.py','keys.py','algos.py'],[('set() of every primitive type','asn1crypto/core.py, asn1crypto/x509.py'),('item assignment','asn1crypto/core.py:Sequence/SequenceOf/Concat.__setitem__')],
 observe=['state of the value after the exception'])
p('C09','Copies taken at any moment are equal and independent',
 'At any point in the history of a value (loaded or built, partly or fully read, edited), a copy made with copy(), the copy module, retagging, untagging or a pickle round trip has the same native form and the same DER encoding (apart from a requested change of tagging). From then on neither side ever sees an edit made to the other, whatever edits and reads follow on both.',
 ['histories','programs'],'every structure type and tagging, every moment of a read/edit history at which the copy is taken and every interleaved continuation on both sides',
 'Tests copy a value once, usually untouched; sharing or loss only appears for certain lazily parsed or cached states at copy time and certain later edits.',
 ['core.py'],[('_copy of every type family','asn1crypto/core.py'),('retag, untag, __reduce__','asn1crypto/core.py:Asn1Value')],observe=['dump and native of original and copy'])
p('C10','Streamed and other BER encodings mean the same as DER and re-encode to it',
 'However a producer splits a value into indefinite-length containers and string segments, or uses other non-canonical BER forms (long-form lengths, unsorted sets, spelled-out defaults, padded values), the value loaded with its declared type has the same native form as its DER encoding at every point of any read history. Forcing re-encoding at any point yields exactly the DER encoding, leaves the native form unchanged and is idempotent; indefinite-length values are re-encoded as DER by any dump.',
 ['inputs','histories','schedules'],'every value, every way of segmenting and nesting its streamed encoding, every interleaving of reads, dumps, copies and forced re-encodings',
 'The tests hold a few fixed indefinite-length samples; segmentation is chosen by the producer at run time and the outcome depends on what was read or dumped before.',
 ['core.py','parser.py'],[('merging of segments','asn1crypto/core.py:Constructable'),('forced re-encoding','asn1crypto/core.py:dump, _set_contents')],observe=['.native','dump()','dump(force=True)','copy()'])
p('C11','PEM decoding returns intact blocks in order and never a torn one',
 'From text made of PEM blocks mixed with other text, with any line ending, line width, headers and blank lines, decoding returns exactly the armored blocks: their type, headers and bytes, in order, also when several decoders run interleaved. If a writer crashed so that a block is cut off at an arbitrary point, whether at the end of the text or followed by further blocks, the torn block is never returned as if complete (unless all of its data and the END keyword were written) and no decoded block mixes data from two blocks; decoding may only skip it, with what is glued to its last line, or raise ValueError.',
 ['crash_points','inputs','schedules'],'every sequence of blocks, headers and surrounding text, every crash point of the writer, every continuation appended after the crash, every interleaving of decoders',
 'The tests decode intact fixture files; torn files need a crash at a particular byte followed by an append.',
 ['pem.py'],[('line state machine','asn1crypto/pem.py:_unarmor'),('armor','asn1crypto/pem.py:armor')],observe=['pem.unarmor()','pem.armor()','pem.detect()'])
p('C12','Results do not depend on import order, registration time or environment',
 'Parsing, building and encoding give the same results whatever the order in which the package\'s modules are imported or reloaded in the advertised order, and whether or not types were already in use when a module or the application registered further names, attribute types or curves. Nor do they depend on the hash seed, time zone, locale, current clock or interpreter optimisation level of the process.',
 ['configurations','histories','schedules'],'every interleaving of imports, registrations and first uses; every hash seed, time zone, locale, clock reading and clock jump',
 'The test run imports everything up front in one environment (fixed hash seed, UTC) before any type is used.',
 ['__init__.py','core.py','tsp.py','pdf.py','cms.py','x509.py','keys.py','algos.py','util.py'],[('late registration into shared maps','asn1crypto/tsp.py, asn1crypto/pdf.py, asn1crypto/keys.py:NamedCurve.register'),('reverse maps built on first use','asn1crypto/core.py:ValueMap'),('load_order()','asn1crypto/__init__.py')],
 observe=['results of a fixed workload in differently set up processes'])
p('C13','A dump is a complete checkpoint of a value',
 'At any moment of any history of building, reading and editing a value, if the process dies and only the dumped bytes survive, loading them with the same type gives a value that has the same native form, the same elements and the same dump, and that behaves the same under all further edits. A value that is not finished (a required field is not set) is refused by dump rather than written.',
 ['crash_points','histories','inputs'],'every structure and primitive type, every history, every moment at which the dump is taken and the live object is lost',
 'Tests round-trip a few values right after construction; a live object answers from caches that the reloaded one does not have, so agreement depends on the history before the crash.',
 ['core.py','x509.py','keys.py','algos.py','cms.py'],[('set() must keep cached native and encoded contents in step','asn1crypto/core.py'),('dump and load','asn1crypto/core.py')],observe=['native, elements and dump of the live value against the reloaded one'])
p('C14','Strict teletex decoding lasts exactly as long as its scope',
 'Inside the strict teletex scope names first read there are decoded with the real teletex codec, and outside it with the lenient one, for every nesting of scopes and every way of leaving them: normally, by an exception raised at any point, or by abandoning a suspended generator or task. When the outermost scope is left the lenient mode is back; leaving an inner scope does not end the outer one.',
 ['histories','fault_sequences','schedules'],'every nesting and interleaving of enter, decode, raise and leave steps',
 'The test suite enters the scope once, un-nested and without failures.',
 ['x509.py','_teletex_codec.py'],[('strict_teletex context manager','asn1crypto/x509.py:strict_teletex')],observe=['native of teletex name values'])
p('C15','Abandoned iterations and half-used scans do not affect other readers',
 'An iteration over fields, elements or PEM blocks may be suspended at any step, abandoned, closed early, or interleaved with any number of other iterations and reads, by one or several consumers. Each iteration still yields exactly the complete sequence of its value in order, and suspending or dropping one never changes what another consumer sees.',
 ['schedules','histories','crash_points'],'every structure type with elements, every interleaving of the steps of several iterations with reads, every point at which one is abandoned',
 'Tests consume each iterator in one go.',
 ['core.py','pem.py'],[('generators over lazily built children','asn1crypto/core.py:Sequence.__iter__, SequenceOf.__iter__'),('PEM generator','asn1crypto/pem.py:_unarmor')],observe=['items yielded'])
# pure
p('C20','Scalar codecs follow X.690 for every value',
 'For every integer, boolean, bit string, object identifier, character string and time value, the encoding is the DER encoding X.690 prescribes and decoding it gives the value back.',
 ['inputs'],'every native value of every scalar type','Tests sample a few dozen values per type.',
 ['core.py','util.py','_int.py','_teletex_codec.py'],[('scalar encoders and decoders','asn1crypto/core.py, asn1crypto/util.py')],observe=['set/native/dump'])
p('C21','Distinguished names compare as RFC 5280 section 7 prescribes',
 'Two names, host names, e-mail addresses or URIs compare equal exactly when the RFC 5280 comparison rules say so, and equal names have equal hashable forms.',
 ['inputs'],'every pair of names','Tests compare a list of fixed pairs.',['x509.py'],[('comparison and string preparation','asn1crypto/x509.py:Name, NameTypeAndValue, DNSName, URI, EmailAddress')],observe=['==','.hashable'])
p('C22','Certificate host and address matching is correct',
 'A certificate is reported valid for a host name or IP address exactly when its names cover it under RFC 6125 rules.',
 ['inputs'],'every certificate and every host name or address','Tests use a few fixture certificates.',['x509.py'],[('is_valid_domain_ip','asn1crypto/x509.py:Certificate')],observe=['is_valid_domain_ip()'])
p('C23','Key containers and algorithm accessors report the right parameters',
 'Wrapping a key and reading algorithm, size, curve, hash, salt, iteration and cipher parameters from any well-formed container gives what the relevant standard assigns to that encoding.',
 ['inputs'],'every key and algorithm identifier','Tests cover the fixture keys and a subset of algorithms.',['keys.py','algos.py'],[('accessors','asn1crypto/keys.py, asn1crypto/algos.py')],observe=['accessor properties'])
p('C24','URI, IDN and IP text conversions are faithful',
 'Converting internationalised identifiers, host names and IP addresses between text and encoded form is lossless for every legal value and refuses every illegal one.',
 ['inputs'],'every legal or illegal text form','Tests sample fixed strings.',['_iri.py','_inet.py','x509.py','util.py'],[('iri_to_uri / uri_to_iri, inet_pton / inet_ntop','asn1crypto/_iri.py, asn1crypto/_inet.py')],observe=['conversion functions'])
p('C25','Year-zero dates behave like ordinary dates',
 'Dates and times in the year 0 compare, format, convert and do arithmetic consistently with each other and with the standard datetime types.',
 ['inputs'],'every date, time, offset and operation','Tests sample fixed dates.',['util.py'],[('extended_date, extended_datetime, timezone','asn1crypto/util.py')],observe=['operators and methods of the extended types'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
