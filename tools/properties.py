import json
A="src/arraystring.rs"; I="src/implementations.rs"; U="src/utils.rs"; D="src/drain.rs"; E="src/error.rs"; L="src/lib.rs"; G="src/integration.rs"
def m(*xs): return [dict(name=n,where=w) for n,w in xs]
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    a=dict(files=files,mechanism=m(*mech))
    if state: a["state"]=[dict(name=n,meaning=mn,where=w) for n,mn,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
st=[("array, size","text = array[..size]; size is one byte",A+" struct ArrayString")]
p("C01","The text is always valid UTF-8 and never longer than the capacity",
"After any sequence of safe operations, successful or refused, on any string type of the crate (fixed capacities, the cache-aligned string, drains, split-off parts), the exposed text is valid UTF-8, its length is at most the capacity, and the exposed bytes are exactly the `len()` bytes of that text.",
["histories","inputs"],"every capacity, every finite sequence of safe public operations with arbitrary arguments, indices and caller-supplied iterators, predicates and AsRef implementations",
"Tests look at a handful of strings per operation; cuts inside multi-byte characters depend on the joint value of text, index, free room and argument, and on what earlier operations left in the buffer.",
[A,I,U,D,L],[("cuts back off to a character boundary",U+" truncate_str"),("indices are refused unless on a boundary",U+" is_char_boundary"),("length always rewritten together with the bytes",A+" replace_range, truncate, pop, drain"),("text is read as str from the first size bytes",I+" AsRef<str>")],st,["len()","AsRef<[u8]>","as_str()","Deref","Borrow<str>"])
p("C02","Safe code can never cause undefined behaviour",
"No use of the safe API reads or writes outside the string's own storage, reads uninitialised or stale memory, builds an invalid str, or breaks Rust's aliasing rules. This holds even when caller-supplied iterators, predicates, AsRef implementations and range bounds lie, change their answers between calls, panic, or mutate other strings.",
["inputs","programs","histories"],"every history of safe calls, every capacity, every caller-supplied trait implementation including adversarial ones",
"Tests observe results, not memory accesses; they use only honest std types as arguments and no sanitizer or interpreter.",
[A,I,U,D,L],[("one bounds-checked splice carries all growth",A+" replace_range"),("caller-supplied values are read once",A+" try_insert_str, replace_range, drain"),("length cannot exceed the capacity because it is checked before it is stored",U+" is_inside_boundary")],st,["AddressSanitizer reports","Miri reports","canaries around the value"])
p("C03","Edits that fit behave exactly like std String",
"Whenever the result fits in the capacity and the indices are valid, every constructor, append, insertion, removal, replacement, truncation, trim, retain, split, drain, clear, concatenation, extension and clone leaves exactly the text that the same operation leaves in a std String, and returns the corresponding value (removed or popped character, split-off part, drained characters). `trim` removes leading and trailing Unicode whitespace; `retain` asks once about each character, in order.",
["histories","inputs"],"every capacity, every text, every argument that fits, every valid index, after every history",
"The equivalence ranges over all texts, indices and capacities; tests compare a few examples, mostly at small sizes where the one-byte length and the shifting of tails are never stressed.",
[A,I,D],[("tail moved by the difference of lengths",A+" replace_range"),("removal is a drain of one character",A+" remove"),("retain and trim rewrite through the same splice",A+" retain, trim")],st,["text after the call","returned value"])
p("C04","A refused operation leaves the text untouched",
"When a fallible operation returns an error, the string holds exactly the text it held before, whatever the error and wherever in a history it happens. A failing constructor yields no string; for piecewise formatting (`write!`) each piece is atomic and the pieces accepted before the refused one stay.",
["histories","inputs"],"every fallible operation, every reason of refusal, every prior text and capacity",
"Tests check the error value on a few cases and rarely the text afterwards, never after long histories or at exact capacity.",
[A,I],[("validation before mutation",A+" try_push_str, try_insert_str, replace_range, drain, split_off, remove, truncate"),("write_str delegates to the all-or-nothing append",I+" fmt::Write")],st,["text before and after the call"])
p("C05","Fallible operations fail exactly when they must, for a true reason",
"An operation that reports errors succeeds if and only if its index or range is within the text and on character boundaries and the result fits the capacity (and UTF-16 input is well formed). The error it reports names a condition that really holds: out of bounds for an index outside the text or a result over capacity, UTF-8 for an index inside a character, UTF-16 for ill-formed input; converting an error into the general error type keeps its kind.",
["inputs","histories"],"every fallible operation x capacity x text x index or range (including usize::MAX and inverted, excluded-start and inclusive bounds) x argument",
"The interesting cases are conjunctions (index at len, empty argument, full string, inverted range, off-boundary end) that grow combinatorially; tests sample one or two each.",
[A,U,E],[("bounds check",U+" is_inside_boundary"),("boundary check",U+" is_char_boundary"),("order and coverage of checks",A+" replace_range, try_insert, drain, split_off, remove, truncate"),("kind-preserving conversions",E+" From impls")],None,["Ok or Err of the call","error variant"])
p("C06","Truncating operations keep the longest prefix that fits",
"Every truncating constructor or append or insertion keeps exactly the longest prefix of what was offered that fits in the room available and ends on a character boundary: never one character less, never part of a character. When everything fits nothing is cut, text already present before and after the insertion point is kept whole, and once something was cut nothing that comes later is added.",
["inputs","histories"],"every capacity, existing text, insertion point and offered text, sequence of strings or characters, of any length including far over 255 bytes",
"Whether the cut is maximal depends on the byte offset modulo character widths and on the free room; tests exercise one or two offsets, never lengths beyond the range of the one-byte size.",
[A,I,U],[("cut at the last boundary within the room",U+" truncate_str"),("stop at the first piece that does not fit",A+" from_iterator_truncate, from_chars_truncate"),("room computed from capacity and length",A+" push_str_truncate, insert_str_truncate")],st,["text after the call"])
p("C07","UTF-16 constructors agree with the standard decoding",
"Building from UTF-16 gives the text std's decoder gives: the strict constructor accepts exactly well-formed input that fits, the truncating one keeps the longest prefix of whole characters that fits and reports ill-formed input it reaches, and the lossy one replaces each ill-formed unit by U+FFFD before cutting the same way. Surrogate pairs are never split by the cut.",
["inputs"],"every sequence of 16-bit units (unpaired, reversed and truncated surrogates anywhere) x every capacity",
"The input space is all u16 sequences times capacities; tests use one valid and one invalid literal.",
[A],[("decode_utf16 and per-character push",A+" try_from_utf16, from_utf16_truncate, from_utf16_lossy_truncate")],None,["result and text of the three constructors"])
p("C08","Every call returns normally: no panic, no hang, in debug and release",
"Every safe operation except slicing by index returns a value or an error for every input, in builds with and without overflow checks and debug assertions, with logging on and off: it never panics, aborts or loops forever. Operations that take at most a capacity's worth of characters return even when the iterator they are given never ends.",
["inputs","histories","configurations"],"every operation, argument, index and range bound including extreme usize values; endless iterators; debug and release builds",
"Absence of panics and arithmetic overflow is a statement about all inputs; tests run only one build profile and only values near the small examples.",
[A,I,U,D,L],[("length arithmetic in a lossy one-byte conversion",U+" IntoLossy"),("saturating handling of inclusive and excluded bounds",A+" drain, replace_range"),("no unwrap on caller-controlled values",A)],None,["unwinding","process death","CPU time of a call"])
p("C09","No operation ever allocates on the heap",
"No operation of the crate's own API (construction, edits, views, comparison, hashing, formatting into a caller's sink, draining, cloning, error creation) allocates, reallocates or frees heap memory, whether it succeeds, truncates or is refused, and whether or not logging is compiled in.",
["inputs","histories","configurations"],"every operation, outcome and capacity, in std and no_std configurations",
"Nothing in the tests counts allocations; a temporary String or Vec on a rare path is invisible to them.",
[A,I,D,L],[("inline storage",A+" struct ArrayString"),("splices copy within the array",A+" replace_range"),("drain holds a copy of the removed text inline",D+" Drain")],None,["global allocator calls during each operation"])
p("C10","Equality, order and hash depend on the text alone and match str",
"Two strings of the same type compare equal, order and hash exactly as their texts do as str, whatever operations produced them and whatever bytes remain in unused storage; all comparison operators are mutually consistent and equality with str and &str agrees. Hashing feeds what str feeds, so lookups in maps by &str find the string; drains compare, order and hash by the text left.",
["inputs","histories"],"all pairs of strings (and of drains) of every capacity, produced by arbitrary different histories",
"Stale bytes beyond the length differ per history; tests compare freshly built strings only.",
[I,D,L],[("comparison and hash through the str view",I+" PartialEq, Ord, PartialOrd, Hash, Borrow<str>"),("same for drains",D+" PartialEq, Ord, Hash"),("same for the cache-aligned type",L+" CacheString impls")],st,["==, cmp, partial_cmp, <, hash streams, HashMap and BTreeMap lookups"])
p("C11","Formatting shows the text as str would, and writing is piecewise atomic",
"Displaying a string gives exactly what displaying its text as a str gives under every width, fill, alignment and precision; its debug output contains the text in str's debug form. As a `fmt::Write` sink it takes each piece whole or reports an error and takes nothing of it. Error values display a non-empty description.",
["inputs","histories"],"every text x every format specification x every string type; every sequence of formatted pieces and capacities",
"Format specifications multiply with texts and remaining room; tests use plain `{}` on short ASCII.",
[I,L,D,E],[("Display delegates to str",I+" Display"),("Debug shows the str view",I+" Debug"),("write_str appends all or nothing",I+" fmt::Write"),("delegation of the aligned type",L+" CacheString Display, Debug, Write")],None,["formatted output","fmt::Result and text after each piece"])
p("C12","Slicing by byte index behaves like slicing a str",
"Indexing and mutable indexing by every kind of one-byte range (full, from, to, half-open, inclusive, to-inclusive) yields exactly the slice of the text that str indexing yields, and panics exactly when str indexing panics: out of bounds, inverted, or inside a character. A panicking index leaves the text unchanged.",
["inputs"],"every text, every pair of one-byte bounds 0..=255, all six range kinds, shared and mutable, every string type",
"Per text there are tens of thousands of ranges; tests try one per kind, and never bounds at 255 or on a string of capacity 255.",
[I,L],[("delegation to str indexing with widened bounds",I+" Index, IndexMut impls"),("the same for the aligned type",L+" CacheString Index, IndexMut")],None,["slice contents and position","panic or not"])
p("C13","A drain yields exactly the removed characters and removes exactly the range",
"Draining a valid range removes exactly that range from the text at once, however far the drain is then consumed, and the drain yields the removed characters each exactly once, in order from either end, then None forever. At every moment its text view is the characters not yet yielded, its size hint admits their number, its copies continue independently, and its default is empty.",
["histories","inputs"],"every text and range of every bound kind x every interleaving of next and next_back and iterator adaptors x copies taken at any point, forgetting and dropping",
"Interleavings of both ends with multi-byte characters and copies are a history space; tests drain one ASCII range from the front.",
[A,D],[("removed text copied into the drain, then spliced out",A+" drain"),("front and back consumption share one text",D+" next, next_back")],[("inner string","characters not yet yielded",D+" Drain")],["yielded characters","as_str of the drain","text of the source"])
p("C14","The cache-aligned string is the 63-byte string, 64 bytes long and aligned",
"The cache-aligned string gives for every operation, conversion, comparison, index, format and view the same result and text as a plain string of capacity 63 given the same input. It occupies exactly 64 bytes at 64-byte alignment, reports capacity 63, and converting between the two keeps the text.",
["inputs","histories"],"every history of operations run on both types in parallel",
"Each delegation is a separate hand-written method; tests exercise few of them on this type and never compare it with the plain type over histories.",
[L],[("hand-written delegations",L+" CacheString impls"),("representation",L+" repr(align(64))")],None,["results and texts of both types","size_of, align_of, addresses"])
p("C15","Every capacity from 1 to 255 works and costs one byte of overhead",
"Strings of every capacity from 1 to 255 are available, report that capacity, can be filled to exactly that many bytes and not one more, keep all other guarantees at that size, and occupy capacity plus one bytes with alignment one. The named aliases have their documented capacities, a new or default string is empty, and no capacity outside that range is accepted unless it works in the same way.",
["configurations","inputs"],"all 255 capacities and the rejected sizes around them, each with histories at and around the full state",
"Tests instantiate a few capacities; sizes near 127, 128, 254 and 255, where the one-byte length is at its limits, are barely used.",
[A,L],[("list of accepted sizes",A+" sealed ValidCapacity impls"),("one-byte length beside the bytes",A+" struct ArrayString"),("aliases",L+" SmallString, MaxString, CacheString")],None,["capacity()","size_of, align_of","behaviour at the full state","compiler acceptance"])
p("C16","serde round-trips the text and reads any string, keeping the prefix that fits",
"A string serialises exactly as its text does as a str, in every format, and deserialising that gives back an equal string. Deserialising any string the format offers (borrowed, transient or owned, escaped or not) gives the longest prefix that fits, and anything that is not a string is an error, never a panic.",
["inputs","configurations"],"every text, capacity and string type x text and binary formats x borrowed, transient and owned delivery, nested in containers and as map keys",
"Tests round-trip one short literal through one format and one way of delivering strings.",
[G],[("serialize_str of the text",G+" Serialize"),("visitor for strings of any ownership",G+" TruncateVisitor")],None,["serialised bytes","deserialised text or error"])
p("C17","diesel stores the exact text and reads back the prefix that fits",
"Written to a text column, bound as a parameter, compared in a filter or updated, a string stores exactly its text (byte for byte, as SQL text, including empty texts and NULs). Reading a text column gives the stored text cut to the longest prefix that fits; NULL is distinguished from the empty text, and a stored value that is not text is refused, exactly as for String.",
["inputs","histories"],"every text, capacity and string type x insert, update, filter, by-name and by-position queries, nullable and required columns, SQLite, PostgreSQL and MySQL values",
"Tests store and load one short row.",
[G],[("FromSql through the backend's own String conversion, then truncation",G+" FromSql"),("ToSql of the str view",G+" ToSql")],None,["rows as read back as String and as the crate's types"])
p("C18","Features and build profile never change results",
"The same sequence of calls gives the same results, texts, errors, hashes and renderings whether std, logging, serde or diesel support is compiled in or not, and whether the build is optimised or has debug assertions and overflow checks.",
["configurations","histories"],"every pair of supported configurations x every history of operations",
"The test suite runs in one configuration only (all features, debug profile); conditional code in the others is compiled but never run.",
["Cargo.toml",L,A,E],[("logging macros replaced by no-ops",L+" mock log macros"),("cfg-gated items",L+", "+E),("arithmetic identical with and without overflow checks",U+" IntoLossy")],None,["results of one workload in each configuration"])
p("C19","Caller-supplied iterators, predicates and text providers are used faithfully",
"Iterators are consumed in order, each item used at most once and whole or (for truncating operations) cut at the end, size hints never influence the result, and iteration stops after the end or once the outcome is settled, so endless iterators are fine wherever capacity bounds the result. What is handed over by value is dropped exactly once. If caller-supplied code panics, the panic reaches the caller and the string is still valid with only whole characters of the old text and of what was offered.",
["inputs","programs"],"every iterator (lying size hints, endless, not fused, panicking at any step), predicate and AsRef provider, at every capacity and prior text",
"Tests pass only well-behaved std iterators and pure predicates.",
[A,I],[("per-item append",A+" try_from_iterator, from_iterator_truncate, try_from_chars, from_chars_truncate"),("extension built on the same appends",I+" Extend impls"),("predicate driven rewrite",A+" retain")],None,["items requested","text after return or unwind"])
p("C20","All views show the same text, and in-place edits through them stick",
"Every shared view (as_str, Deref, AsRef, Borrow, bytes, full range index, comparison, display) shows the same text at the same address inside the string, of length `len()`, and `is_empty` agrees. Every mutable view covers exactly that text; edits made through it that keep it valid UTF-8 are what all views show afterwards, and change neither length nor anything else.",
["histories","inputs"],"every text and capacity, every view, every in-place edit, between arbitrary other operations",
"Tests read through one or two views right after construction and never cross-check views after in-place edits.",
[A,I,L],[("all views derive from the first size bytes",A+" as_str, as_mut_str"),("conversion traits",I+" AsRef, AsMut, Borrow, BorrowMut, Deref, DerefMut"),("delegation",L+" CacheString views")],st,["contents, address and length of every view"])
p("C21","Strings, drains and errors are plain, independent values",
"A string, drain or error can be copied, cloned, moved, swapped, kept in arrays, collections, constants and statics, caught in a panic, sent to other threads and shared between them. Every copy, however made, starts with the text of its original, and nothing done to one string later shows in another, on any thread. Using the library inside caller-supplied code that the library is calling, or in the middle of another use of it, works as if alone. The empty string and the capacity are available in constants.",
["histories","schedules","programs"],"every type, capacity and text; every way of copying; every interleaving of edits to originals and copies, on any number of threads, nested in caller-supplied code",
"Tests use one string at a time on one thread and copy by assignment only; a field that does not travel with a copy, state shared between strings or a lost Send, Sync or const shows in none of them.",
[A,I,D,L,E],[("copies are bitwise",A+" derive(Copy, Clone) ArrayString; "+L+" CacheString; "+D+" Copy for Drain; "+E+" derives"),("no state outside the value",A+" struct ArrayString"),("const constructors",A+" new, capacity; "+L+" new, capacity"),("no interior mutability, pointers or drop glue",A+" array and size fields")],st,["text of every live string after every edit","programs the compiler accepts"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
tech={"C02":"AddressSanitizer and Miri over hostile and random workloads, plus canaries","C09":"global-allocator monitor around every library call","C08":"unwind, abort and CPU-time hang monitor over random, exhaustive and hostile workloads","C18":"differential monitoring: same seeded workload in several build configurations, digests compared",
"C10":"comparison monitor against str over pairs of histories","C11":"rendering monitor against str over format specifications","C12":"index monitor against str over all one-byte ranges","C13":"iterator trace monitor against str::chars","C14":"lockstep differential monitor against ArrayString<63>; layout observation","C15":"model-based monitor over all 255 capacities; compiler acceptance probes","C16":"round-trip monitor through four serde formats","C17":"round-trip monitor through diesel and in-memory SQLite; raw PostgreSQL and MySQL values against String","C19":"call-trace monitor of hostile caller-supplied code","C21":"bystander monitor over originals and copies on one and several threads; programs compiled and run","C20":"cross-view monitor with in-place edits"}
T="model-based runtime monitor (std String oracle) over seeded histories, sweeps and small-scope enumeration"
checks=[]
for x in P:
    i=x["id"]
    checks.append(dict(property=i,quick_cmd=f"python3 check.py {i}",thorough_cmd=f"python3 check.py {i} --thorough",evidence_file=f"evidence/{i}.json",technique="runtime monitoring: "+tech.get(i,T),level="exploration",
     level_note={"C02":"No sanitizer, Miri or canary report on the executions observed; Miri workloads are small, AddressSanitizer does not see overflows inside one object (the model monitors of C01 and C03 see their effect)."}.get(i,"Held on the executions observed (counts in the evidence file); trusts std's String, str and Formatter as oracle and says nothing about executions the workloads did not produce.")))
M=dict(version=1,setup_cmd="python3 check.py --setup",checks=checks,not_applicable=[],notes="No hooks in /repo: everything is observed through the public API. Known and repaired findings: KNOWN_FINDINGS. Replay a witness: python3 check.py --replay replays/<file>.")
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
jsonschema.validate(M,json.load(open('/root/.vp/MANIFEST.schema.json')))
