#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.

Run by hand after editing; the outputs are committed.
"""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PK, UP, UT, HA, BA, TA = (f"jsonpickle/{n}.py" for n in ("pickler", "unpickler", "util", "handlers", "backend", "tags"))
NP, PD, TP, YA, GM = "jsonpickle/ext/numpy.py", "jsonpickle/ext/pandas.py", "jsonpickle/tags_pd.py", "jsonpickle/ext/yaml.py", "jsonpickle/ext/gmpy.py"
IN = "jsonpickle/__init__.py"

PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, monitor, note):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append(dict(pid=pid, title=title, statement=" ".join(statement.split()), over=over.split(), text=text, why=why,
                      files=files, mechanism=mechanism, monitor=monitor, note=note))  # fmt: skip


prop(
    "P01", "Builtin values survive encode and decode exactly",
    """Decoding the encoding of any value built from None, booleans, integers of any size, floats, complex numbers, text, bytes,
    bytearrays, ranges, slices, lists, tuples, sets, frozensets and string-keyed dicts gives back the same types, the same
    values (floats bit for bit, text code point for code point) and the same order. Formatting options (indentation,
    separators, base85) never change what a document decodes to, and nothing in the data can be mistaken for structure.""",
    "inputs configurations", "all nested builtin values, all formatting options",
    "The domain is infinite; tests fix a few dozen literals and never combine edge scalars with positions and options.",
    [PK, UP, UT], [("scalar pass-through and byte encoding", f"{PK}:Pickler._flatten_impl"), ("container encoding", f"{PK}:Pickler._get_flattener"),
                   ("tag dispatch", f"{UP}:Unpickler._restore_tags"), ("base64/base85 codecs", f"{UT}:b64encode, b85decode")],
    "lock-step graph comparison of original and decoded value (types, bits, order)", "random search over nested values, edge scalars in every position, all code points; depth <= 100")
prop(
    "P02", "Class instances come back with their class and complete state",
    """Decoding the encoding of any graph of instances of importable classes yields instances of the same classes with the same
    attribute names and values, for ordinary, slotted, inherited, private, dataclass, namedtuple, enum and exception classes
    and for subclasses of the builtin containers and scalars, whose own contents are kept alongside their attributes. Classes,
    functions and enum members come back as the very same objects, and no constructor needs to be called to get there.""",
    "inputs programs", "all object graphs over importable classes, every combination of storage layout and base type",
    "Tests use one class per feature with fixed attributes; combinations of base type, slots layout, inheritance and nesting are open-ended.",
    [PK, UP, UT], [("instance encoding", f"{PK}:Pickler._flatten_obj_instance"), ("attribute restoration", f"{UP}:Unpickler._restore_from_dict"),
                   ("instance creation", f"{UP}:Unpickler._restore_object_instance"), ("class lookup", f"{UT}:loadclass, importable_name")],
    "lock-step comparison reading __dict__ and slot descriptors directly", "random graphs over ~60 class shapes")
prop(
    "P03", "Object identity is preserved: shared stays shared, distinct stays distinct",
    """When the same list, dict or instance is reachable by several paths, or from itself, the decoded graph has exactly one
    object in its place, reachable by the same paths; objects that are distinct in memory stay distinct even when they are
    equal. This holds whatever else is in the graph, including values that are encoded as null or carry no identity.""",
    "inputs histories", "all object graphs with sharing and cycles",
    "Reference numbering is a protocol between encoder and decoder over the whole document; tests cover short fixed graphs.",
    [PK, UP], [("reference numbering while encoding", f"{PK}:Pickler._mkref, _log_ref, _getref"), ("reference numbering while decoding", f"{UP}:Unpickler._mkref, _restore_id"),
               ("placeholders for unfinished objects", f"{UP}:_Proxy, _IDProxy, Unpickler._swap_proxies")],
    "bijection monitor between objects of both graphs", "random cyclic graphs over all kinds of nodes")
prop(
    "P04", "Temporary objects made during encoding are never confused with each other",
    """Objects that only exist while encoding runs (state, constructor arguments, iterator items, property values or handler
    output freshly built by user code) are encoded by their own contents. No document ever shows one of them in the place of
    another, or as a reference to another, in any encoding mode.""",
    "inputs histories", "all sequences of short-lived objects, including those reusing each other's memory address",
    "It depends on allocator history: a stale identity only shows when an address is reused between two particular calls.",
    [PK], [("keeping visited objects alive", f"{PK}:Pickler._flatten_obj (_seen)"), ("flatten cache by identity", f"{PK}:Pickler._flatten (_flattened)")],
    "every temporary carries a unique number that must appear in its own place", "address reuse provoked with churn and gc; three encoding modes")
prop(
    "P05", "With keys=True every hashable key round-trips, whatever it looks like",
    """Encoding and decoding with keys=True gives back every dictionary with the same keys (type and value) and the same items,
    for keys of any encodable hashable type and for strings that look like the library's own markers. Keys may share objects
    with values and with other parts of the graph; identity is preserved across them.""",
    "inputs", "all dictionaries over encodable hashable keys, nested and shared",
    "Keys are documents inside documents sharing one numbering; tests cover a handful of key types one at a time.",
    [PK, UP, TA], [("key escaping", f"{PK}:Pickler._escape_key, _flatten_string_key_value_pair, _flatten_non_string_key_value_pair"),
                   ("two-phase key restoration", f"{UP}:Unpickler._restore_dict, _restore_pickled_key")],
    "lock-step comparison incl. keys and identities", "random dictionaries; order compared among keys of the same kind")
prop(
    "P06", "By default dict keys become predictable strings and no item is lost",
    """Without keys=True, string keys are kept as they are, None becomes "null" and any other key becomes its repr (its str if
    the repr fails); numeric_keys=True leaves numbers to the JSON writer. Every item appears under that key, in order, with its
    value intact, in plain dicts, dict subclasses and nested dicts alike.""",
    "inputs configurations", "all dictionaries with non-reserved keys", "Tests check a few literal keys.",
    [PK], [("key coercion", f"{PK}:Pickler._flatten_key_value_pair")],
    "decoded graph against an independent model of the key mapping", "random key types, nesting and sharing")
prop(
    "P07", "Pickle-protocol hooks are honoured the way pickle honours them",
    """For any graph of objects that implement the pickle protocol (reduce values of every length, state with and without a
    state setter, constructor arguments), written by the user or inherited from a library class, decoding produces the graph
    that Python's own pickle would restore. Each hook runs once per object, with the values the class supplied, and no other
    constructor or hook is run behind the class's back. Only subclasses of list, tuple, set and dict are not reduced: they keep
    their items and attributes in a form of their own.""",
    "inputs programs", "all graphs over classes implementing the protocol in methods, with true-valued states",
    "Each class can combine the hooks freely and hooks observe order and identity; tests try single classes.",
    [PK, UP], [("reduce and state encoding", f"{PK}:Pickler._flatten_obj_instance, _getstate, _reduce"), ("reduce restoration", f"{UP}:Unpickler._restore_reduce"),
               ("state restoration", f"{UP}:Unpickler._restore_state")],
    "differential comparison with pickle plus call-trace monitor", "random graphs over ~25 written classes, classes made at random from every combination of hooks over three levels of inheritance, and subclasses of 40 library classes")
prop(
    "P08", "unpicklable=False gives plain JSON that mirrors the data",
    """With unpicklable=False the document contains no type tags for ordinary data: attributes and dict items become object
    members, sequences and sets become arrays, scalars stay as they are, and everything appears at its own place with its own
    contents. An object that occurs several times is written out in full each time, except that an object inside itself is
    cut with null, so encoding always ends.""",
    "inputs", "all graphs of builtin values, instances and container subclasses, shared and cyclic",
    "Results are cached by identity and cycles are cut on the way; only particular sharing shapes expose a wrong cut or a stale result.",
    [PK], [("plain flattening and result cache", f"{PK}:Pickler._flatten"), ("cycle cutting", f"{PK}:Pickler._get_flattener, _ref_obj_instance")],
    "lock-step walk of the object graph and the parsed document", "random graphs, rings of every kind of object; bytes, types and iterators excluded (they keep tagged forms)")
prop(
    "P09", "make_refs=False writes no references and breaks cycles with repr()",
    """With make_refs=False the document never contains a reference: an object that occurs several times is written out in full
    at every place, and decoding gives independent copies equal to the original. Only an object met again inside itself is
    replaced, by the text of its repr(), so encoding always ends.""",
    "inputs", "all graphs, shared and cyclic, with and without unpicklable=False and keys=True",
    "Whether an object is in progress depends on the whole path to it; tests try two shapes.",
    [PK], [("reference bookkeeping", f"{PK}:Pickler._mkref, _log_ref, _ref_obj_instance"), ("cycle cut", f"{PK}:Pickler._get_flattener")],
    "lock-step comparison with the decoded document that admits repr() text only for objects on a cycle; scan for reference tags", "random graphs below 3000 written nodes, rings of all kinds")
prop(
    "P10", "max_depth and max_iter bound what encoding touches and nothing else",
    """With max_depth=n everything above depth n is encoded as without the limit, and each container or object exactly at depth n
    becomes the text of its repr() without its hooks or contents being looked at; scalars and bytes are never cut. With
    max_iter=n an iterator is asked for at most n items and exactly the first n are kept, so infinite iterators are safe.""",
    "inputs configurations", "all graphs of containers and attribute- or state-based instances, all limits; all iterators",
    "The cut interacts with sharing, keys, state and nesting; tests use one nested example each.",
    [PK], [("depth limit", f"{PK}:Pickler._max_reached, _flatten_impl"), ("iterator limit", f"{PK}:Pickler._flatten_obj_instance")],
    "independent truncated copy compared with the decoded document; counters inside hooks and iterators", "random graphs, limits 0..12 and 50")

prop(
    "P11", "Encoding and decoding leave their inputs and the library's state untouched",
    """Whatever the options, and also when it fails halfway, encode never changes the object it is given: every reachable object
    keeps its identity, attributes, items and their order, and flattened output shares no mutable part with it. decode and
    restore never change the document they are given, and neither changes handler registrations, backends, warnings filters,
    the recursion limit or other process-wide state.""",
    "inputs configurations faults", "all graphs, all combinations of encode options, failures at any point",
    "Tests look at results, not at what happened to the arguments; side effects need an unusual combination of options.",
    [PK, UP, UT], [("attribute encoding", f"{PK}:Pickler._flatten_obj_instance"), ("state restoration", f"{UP}:Unpickler._restore_state"), ("module-level entry points", f"{PK}:encode")],
    "twin graph built from the same seed compared with the argument after the call; snapshot of process-wide state", "random graphs and random option sets")
prop(
    "P12", "Results never depend on what was encoded or decoded before",
    """A Pickler or Unpickler that is reused through context= gives exactly what a new one gives, after any history of earlier
    calls, including calls that failed at any point; the same holds for the module-level functions. Encoding is deterministic:
    encoding an object again, or an equal graph built the same way, gives the same text, and a decoded graph without sets
    encodes to the document it came from.""",
    "histories faults inputs", "all histories of successful and failing calls",
    "Leftover state shows only after particular sequences of calls; tests start from fresh objects.",
    [PK, UP], [("context reset", f"{PK}:Pickler.reset, _push, _pop"), ("context reset", f"{UP}:Unpickler.reset, restore"), ("entry points", f"{UP}:decode")],
    "used and fresh contexts run side by side after every step of a random history", "histories of 3..12 steps over seven option sets")

prop(
    "P13", "Concurrent and nested calls do not influence each other",
    """Any number of encode and decode calls running in different threads, with any interleaving, give the results they give when
    run one after another. The same holds for complete calls, successful or failing, made from inside the hooks of another call
    (__getstate__, __setstate__, __reduce__, handlers, iterators, on_missing callbacks) with their own contexts.""",
    "schedules programs faults", "all interleavings of calls in threads, all nestings",
    "Tests are single-threaded; interference needs a switch between two particular lines.",
    [PK, UP, HA, BA], [("per-call contexts", f"{PK}:encode"), ("per-call contexts", f"{UP}:decode"), ("handler creation", f"{PK}:Pickler._flatten_obj_instance"), ("shared backend", f"{BA}:JSONBackend")],
    "seeded scheduler switching threads at hooks and at every line of jsonpickle, results compared with those obtained alone", "2..4 threads, thousands of distinct schedules; free-running threads with a small switch interval")
prop(
    "P14", "JSON backends are interchangeable",
    """A document written with any of the json, simplejson, ujson and yaml backends decodes to the same graph with each of them,
    whichever is preferred and whatever formatting options are set; sort_keys changes the order of members only. A backend given with backend= is used for every piece of
    JSON in the call, including keys encoded with keys=True, and the global backend is left alone.""",
    "configurations inputs", "all graphs, all pairs of backends, all formatting options",
    "Tests run a handful of literals through each backend on its own.",
    [BA, PK, UP, YA], [("backend selection", f"{BA}:JSONBackend.encode, decode"), ("key encoding", f"{PK}:Pickler._flatten_key_value_pair, _flatten_string_key_value_pair"), ("yaml backend", YA)],
    "graph comparison over all writer/reader pairs; recording backend objects that mark the text they write", "random graphs over three installed JSON backends and yaml")
prop(
    "P15", "The backend manager follows its rules after any history of calls",
    """After any history of load_backend, remove_backend, set_preferred_backend, set_encoder_options, set_decoder_options and
    enable_fallthrough, encode and decode try exactly the loaded backends in order of preference, each with its own options, and
    stop at the first that succeeds. With fallthrough disabled the first failure is raised, otherwise the last; removed backends
    are never used, and two managers never share state.""",
    "histories faults", "all histories of manager calls over backends that fail at any call",
    "The result depends on the whole history and on which backend fails; tests try single steps.",
    [BA], [("loading and removing", f"{BA}:JSONBackend.load_backend, remove_backend"), ("fallthrough", f"{BA}:JSONBackend.encode, decode, backend_encode"), ("options", f"{BA}:JSONBackend.set_encoder_options")],
    "executable model predicting every backend call, its arguments and its outcome", "histories of 5..40 steps over five fake and three real backends")
prop(
    "P16", "Custom handlers are used exactly for the classes they are registered for",
    """After any history of register and unregister calls, a handler's flatten is called once for each object of its class (and of
    subclasses when registered with base=True) and its result is what ends up in the document; restore is called once with that
    data on decoding and its result takes the object's place, for all references to it. Objects of other classes, and objects of
    classes whose handler was removed, never meet the handler.""",
    "histories inputs", "all histories of registrations over a class hierarchy with instances of every kind",
    "Tests register one handler for one class.",
    [HA, PK, UP], [("registry", f"{HA}:Registry.register, get, unregister"), ("flatten dispatch", f"{PK}:Pickler._flatten_obj_instance"), ("restore dispatch", f"{UP}:Unpickler._restore_object")],
    "model of the registry, and handlers that log each call, compared after every step", "random histories over classes of every storage kind")
prop(
    "P17", "Standard library values keep their exact value and behaviour",
    """datetime, date, time (with time zones and fold), timedelta, Decimal, Fraction, UUID, compiled patterns, array.array, paths, IP
    addresses, the containers of collections, partials, operators, random generators and queues come back with the same type,
    equal to the original in every field and behaving the same, wherever they occur and also when shared. Locks come back in the
    same locked state, open text files come back as None, and gmpy2 numbers keep their value with that extension.""",
    "inputs configurations", "all values of these types in all positions",
    "Tests use one literal per type; field edge cases and positions multiply.",
    [HA, PK, UP, GM], [("built-in handlers", f"{HA}:DatetimeHandler, RegexHandler, UUIDHandler, LockHandler, TextIOHandler, ArrayHandler, QueueHandler"), ("generic reduce", f"{PK}:Pickler._flatten_obj_instance"), ("gmpy handlers", GM)],
    "field-by-field comparison and behaviour probes of the decoded values", "random values of ~50 types in ten positions")
prop(
    "P18", "numpy arrays, scalars and dtypes survive exactly with the numpy extension",
    """With the numpy handlers registered, arrays come back with the same dtype including byte order, the same shape, the same
    elements bit for bit and the same writeable flag, for numeric, text, bytes, datetime, void and structured dtypes of any shape,
    whatever size threshold and compression are chosen; so do scalars, dtypes, ufuncs and random generators, alone, nested and
    shared. Unregistering removes the handlers completely.""",
    "inputs configurations histories", "all arrays over these dtypes, all thresholds and compressions, all histories of registration",
    "Tests check a few arrays with default settings; dtype, layout, size and settings interact.",
    [NP], [("text form", f"{NP}:NumpyNDArrayHandler"), ("binary form", f"{NP}:NumpyNDArrayHandlerBinary"), ("scalars", f"{NP}:NumpyGenericHandler"), ("dtypes", f"{NP}:NumpyBaseHandler.flatten_dtype, restore_dtype")],
    "comparison of dtype, shape, flags and field contents with the original", "28 scalar and 7 structured dtypes, 18 shapes, both byte orders and memory orders, 12 settings")
prop(
    "P19", "numpy views keep sharing memory with the same parts of the same arrays",
    """Arrays in one document that share memory before encoding share the same bytes after decoding, and arrays that do not stay
    separate: a write through any of them shows up in the others exactly as it would have before. This covers slices, strides,
    transposes, fields and reinterpreting views of C- and Fortran-ordered arrays, and arrays over other memory are copied, warned
    about or refused as configured.""",
    "inputs histories", "all sets of contiguous arrays and chains of views, all settings",
    "Aliasing shows only when decoded arrays are written to; tests check one or two views.",
    [NP], [("views", f"{NP}:NumpyNDArrayHandlerView.flatten, restore"), ("reference bookkeeping", f"{NP}:NumpyNDArrayHandlerView._flatten_values_for_readability")],
    "the same random writes applied to originals and decoded arrays, all arrays compared after each", "1..3 owners with up to 6 views of 15 kinds, up to 7 writes")

prop(
    "P20", "pandas frames, series and indexes survive exactly with the pandas extension",
    """With the pandas handlers registered, DataFrames, Series, Indexes and MultiIndexes come back with the same labels, names, order,
    dtypes and values (missing values and time zones included), and so do Timestamps, Timedeltas, Periods and Intervals, alone,
    nested and shared, whatever their size. Documents written in the older formats the extension reads still decode, and
    unregistering removes the handlers completely.""",
    "inputs configurations histories", "all frames over these dtypes and label kinds, all sizes, all histories of registration",
    "Dtype, index kind, names, size and missing values interact; tests fix a few frames.",
    [PD, TP, NP], [("frames", f"{PD}:PandasDfHandler"), ("series and indexes", f"{PD}:PandasSeriesHandler, PandasIndexHandler"), ("dtype tags", TP), ("compression", f"{PD}:PandasProcessor")],
    "pandas' exact comparison plus element-by-element comparison with types", "30 column dtypes, ten index kinds, 0..60 rows")
prop(
    "P21", "Plain JSON decodes to plain data and does nothing else",
    """Decoding any JSON text that has none of jsonpickle's tags as keys gives exactly the data a JSON parser gives: the same
    dicts, lists, texts and numbers, freshly built, however much the texts and keys resemble tags, class names or code. Doing so
    imports nothing, runs nothing and opens nothing, and encoding plain data gives its plain JSON text back.""",
    "inputs configurations", "all JSON documents without tags, all decode options",
    "It is a statement about every text that is not a tag; tests use a few literals.",
    [UP, PK, TA], [("tag dispatch", f"{UP}:Unpickler._restore_tags, has_tag"), ("dicts", f"{UP}:Unpickler._restore_dict"), ("lists", f"{UP}:Unpickler._restore_list")],
    "comparison with the parsed data; interpreter audit hook for imports, compilation, execution, files and processes", "random documents up to 3000 nodes, 70 near-tags in every position")
prop(
    "P22", "Decoding imports and calls only what the document's tags name",
    """Decoding imports only modules named by tags of the document, creates only objects of the classes it names and calls only
    the functions its reduce tags name. Text that merely looks like such a name has no effect, names that do not resolve call
    nothing, classes= entries come before imports, and in the default safe mode py/repr text is never evaluated.""",
    "inputs", "all documents mixing tags, names and data",
    "Unwanted effects hide in combinations of tags and data that tests do not enumerate.",
    [UP, UT], [("class lookup", f"{UP}:loadclass, Unpickler._restore_type"), ("function lookup", f"{UP}:Unpickler._restore_function, _restore_module"), ("safe repr", f"{UP}:loadrepr, Unpickler._restore_repr_safe")],
    "model of the expected imports, constructions and calls; recording fake modules, import finder and audit hook", "random documents over a tree of recording modules")
prop(
    "P23", "Damage in a document stays local and decoding it ends cleanly",
    """A tag whose payload is not of the right kind decodes to its documented empty value (b"", set(), (), an empty iterator, None, or
    the data itself for unknown types) and the rest of the document, references included, decodes as if it were not there. Any
    other damage, structural or textual, ends in bounded time with a value or an ordinary exception, and the next call works
    as ever, also on the same Unpickler.""",
    "inputs faults", "all documents with damage at any point",
    "Damage can occur at any point of any document; tests list some payloads at top level only.",
    [UP, UT, BA], [("payload checks", f"{UP}:Unpickler._restore_set, _restore_tuple, _restore_iterator, _restore_base64, _restore_id"), ("codecs", f"{UT}:b64decode, b85decode"), ("unknown names", f"{UP}:Unpickler._restore_type, _restore_function")],
    "comparison of the undamaged parts with the undamaged decoding; exception, CPU and follow-up monitors", "11 kinds of damaged payloads, 11 structural mutations up to 4 at a time, cut and altered text")

prop(
    "P24", "Objects of classes that cannot be found stay as data, reported as asked",
    """When a class named in a document cannot be found, its object decodes to the plain dict of its data in the same place, and
    everything around it, references included, decodes as if the class were no concern. on_missing decides what is said: nothing,
    a warning per object, a callback with the class name per object, or ClassNotFoundError.""",
    "inputs configurations", "all documents naming missing classes anywhere, all on_missing settings",
    "Which class is missing, where it occurs and what refers past it vary without end; tests use one object at top level.",
    [UP], [("missing classes", f"{UP}:Unpickler._process_missing, _restore_object"), ("lookup", f"{UP}:loadclass")],
    "comparison with a twin graph holding the data as dicts; counted warnings, callbacks and errors", "7 ways for a name to be missing; missing objects hold scalars (see known finding)")
prop(
    "P25", "Classes passed to decode are used under their names, for that call only",
    """Classes given with classes= (one class, a sequence, or a dict by name or class) are used for the objects of that name even
    when they cannot be imported, and take precedence over importable ones, for instances and for class references alike. The
    call knows exactly these; later calls without classes= do not know them.""",
    "inputs configurations histories", "all class layouts, all forms of classes=, all sequences of calls",
    "The forms, the overlaps with importable names and what leaks into later calls are not enumerated by tests.",
    [UP], [("registration", f"{UP}:Unpickler.register_classes"), ("lookup", f"{UP}:loadclass, Unpickler._restore_type")],
    "lock-step graph comparison; redirected and overridden classes observed by identity; follow-up calls without classes=", "1..5 random classes that cannot be imported, every form of classes=")
prop(
    "P26", "Attributes named in _jsonpickle_exclude never reach the document",
    """An attribute named in an object's or class's _jsonpickle_exclude is neither encoded nor touched, whatever the storage layout of
    the class and the encoding mode; the document equals that of the same graph without these attributes. Attributes of other
    objects with the same name are kept.""",
    "inputs configurations", "all graphs, storage layouts and encoding modes",
    "A secret can leak through any layout, base class or mode; tests look at two classes.",
    [PK], [("exclusion", f"{PK}:Pickler._flatten_dict_obj, _flatten_obj_instance, _flatten_newstyle_with_slots"), ("sequences", f"{PK}:Pickler._flatten_sequence_obj")],
    "poisoned excluded values that fail when touched; text comparison with a twin graph without them", "13 layouts, names given in 6 forms, at class or instance level")
prop(
    "P27", "fail_safe replaces exactly the objects that fail and nothing else",
    """With fail_safe, an object whose encoding raises an Exception is replaced by what the callback returns for that exception, once
    per failing occurrence, and the document equals that of the graph with these values in their places. Without fail_safe the
    exception reaches the caller, and exceptions meant to end the program always do.""",
    "inputs faults", "all graphs with failures at any point of encoding",
    "Failures can come at any point, before or after parts were numbered; tests fail one object without sharing.",
    [PK], [("replacement", f"{PK}:Pickler._flatten_impl, _flatten_obj_instance"), ("restoring the state", f"{PK}:Pickler._forget_refs")],
    "text comparison with a twin graph holding the replacements; counted callbacks with the identity of the exception", "failures in state, reduce, arguments, iterators, handlers and nested calls")
prop(
    "P28", "Options that do not concern the data change neither document nor result",
    """An option that has nothing to do in a graph (warn, fail_safe, limits beyond the data, key options without such keys, the global
    backend given explicitly, unused classes, on_missing or handler_context) leaves documents and decoded graphs as they are.
    include_properties adds the values of properties and changes nothing else about what is decoded; handle_readonly leaves out
    the attributes that the encoded object does not let anyone set, and nothing else.""",
    "inputs configurations", "all graphs, all sets of options",
    "Options multiply; tests set one at a time and look only at its effect.",
    [PK, UP], [("options", f"{PK}:encode, Pickler.__init__"), ("decode options", f"{UP}:decode, Unpickler.__init__"), ("properties", f"{PK}:Pickler._flatten_properties")],
    "text and graph comparison with and without the options; callbacks and warnings that must not occur", "random sets of options on random graphs")
prop(
    "P29", "The document format is stable and stored documents stay readable",
    """The JSON written for builtin values, instances, references, keys, reduce forms, dates and UUIDs has the established form (tags,
    numbering, escapes), and documents in that form written by other programs decode to the graph they describe. Older forms
    stay readable: Python 2 module names, named tuples without arguments, both byte codings, and unnumbered dicts with v1_decode.""",
    "inputs histories", "all graphs, in current and older forms",
    "A symmetric change of encoder and decoder passes every round-trip test and still breaks stored documents.",
    [PK, UP, TA, UT, HA], [("tags", TA), ("writing", f"{PK}:Pickler._flatten_obj_instance"), ("reading", f"{UP}:Unpickler._restore_tags"), ("old names", f"{UT}:untranslate_module_name"), ("v1 numbering", f"{UP}:Unpickler._restore_dict")],
    "comparison with an independent implementation of the format, in both directions", "random graphs plus a list of fixed documents")
prop(
    "P30", "What cannot be encoded becomes null in its place, and warn says so",
    """A thing without encoding (lambda, open file, object whose state cannot be taken, handler result of None) becomes null in list,
    tuple and attribute positions and the rest of the document is what it would be with None there (functions without a name are
    left out where they are dict items or attributes). With warn=True there is a
    warning for each such thing and no others; without it there is none.""",
    "inputs configurations", "all graphs with such things anywhere",
    "Where the loss occurs and what is numbered around it vary; tests look at single objects.",
    [PK], [("loss", f"{PK}:Pickler._pickle_warning, _get_flattener"), ("numbering", f"{PK}:Pickler._flatten_impl")],
    "text comparison with a twin graph holding None; recorded warnings matched with the losses", "4 kinds of losses, shared or not")
prop(
    "P31", "All ways to call jsonpickle agree",
    """encode, dumps, the pickler module's encode and a Pickler's flatten followed by the backend write the same text, with options as
    keywords or in their positions, and whether the Pickler is fresh, was used before or is given as context. decode, loads,
    the unpickler module's decode and an Unpickler's restore read the same graph, and flatten gives plain JSON data only.""",
    "inputs configurations histories", "all graphs, options and entry points",
    "Tests use one entry point per feature; disagreements show only in combinations.",
    [PK, UP, IN], [("entry points", f"{IN}:encode, decode, dumps, loads"), ("classes", f"{PK}:Pickler.flatten, encode"), ("decoding", f"{UP}:Unpickler.restore, decode")],
    "text and graph comparison across entry points; type monitor over the flattened tree", "random graphs and options through up to 12 entry points")

prop(
    "P32", "Calls leave nothing behind",
    """After a call, successful or not, jsonpickle keeps no reference to the objects, classes, documents, results, callbacks and
    handler contexts involved, and unregistered handlers are forgotten with their classes; a Pickler kept by the caller holds
    nothing after a successful call. What the library keeps for itself does not grow with the number of calls.""",
    "inputs histories faults", "all graphs, classes, options and failures",
    "Leaks change no result; no test looks at what stays alive.",
    [PK, UP, HA], [("state reset", f"{PK}:Pickler.reset, Pickler._pop"), ("decoder reset", f"{UP}:decode, Unpickler.reset"), ("registry", f"{HA}:Registry.unregister")],
    "weak references to everything involved after dropping it; sizes of all containers held by the library", "random graphs and classes, failures at random points")
prop(
    "P33", "Documents do not depend on the process that writes or reads them",
    """The same value gives the same text in every process (apart from the order of set members), and a document written in one
    process decodes to the same value in any other, whatever the hash seed, time zone, locale, directory, optimisation level,
    memory layout and order of imports.""",
    "inputs configurations", "all values, all process environments",
    "Tests run in one process and see only what is stable within it.",
    [PK, UP, UT, HA, NP, PD, TP], [("names", f"{UT}:importable_name"), ("text of keys", f"{PK}:Pickler._flatten_key_value_pair"), ("dtype tags", f"{TP}"), ("times", f"{HA}:DatetimeHandler")],
    "exchange of documents between processes, texts compared and values judged on both sides", "4 differing environments; graphs, random classes, standard library values, arrays and frames")
prop(
    "P34", "Cost grows in proportion to the data",
    """The work to encode and to decode grows linearly with the size of the data, in every mode, for wide, shared, cyclic, keyed and
    failing graphs. Objects reached over many paths are processed once where references are written.""",
    "inputs configurations", "all families of graphs, all modes",
    "Tests use small data, for which superlinear cost is invisible.",
    [PK, UP, HA], [("numbering", f"{PK}:Pickler._log_ref, _mkref"), ("reference lookup", f"{UP}:Unpickler._restore_id, _mkref, _swapref"), ("forgetting", f"{PK}:Pickler._forget_refs")],
    "counted lines executed in the library (sys.monitoring) and CPU time at two sizes", "37 families in up to 12 modes at sizes n and 16 n, shared chains of 30 levels; tuples and sets are not shared")
prop(
    "P35", "Objects of other libraries work the same after decoding",
    """Objects of libraries that support pickling (scikit-learn estimators, scipy matrices, bson and dateutil values, versions, ecdsa keys,
    SQLAlchemy rows) behave the same after decoding: predictions, products, dates, signatures and columns are identical, alone
    or shared among other objects.""",
    "inputs", "all such objects with any data and settings",
    "Each class uses the hooks in its own way; tests decode five fixed objects.",
    [PK, UP, HA, NP, GM], [("reduce", f"{PK}:Pickler._flatten_obj_instance"), ("rebuilding", f"{UP}:Unpickler._restore_reduce, _restore_object_instance"), ("arrays", f"{NP}:NumpyNDArrayHandler"), ("big integers", f"{GM}:GmpyMPZHandler")],
    "bit comparison of what original and decoded objects compute", "26 estimators, 6 matrix formats, 16 kinds of values, 4 curves, random data")

prop(
    "P36", "Errors raised by user code while decoding reach the caller",
    """When code that decoding runs raises an exception (state setters, reduce functions, constructors, handlers, attribute and item
    setters, append, add, hashes, on_missing callbacks), this very exception reaches the caller, wherever in the document the object
    is, and no more user code is run. It is never taken for damage in the document, so a graph that is returned is complete; only a
    TypeError from a constructor or reduce function, an item that cannot be assigned and a KeyError from an attribute setter make
    the library try to build the object in another way.""",
    "inputs faults", "all graphs, every call of user code, all exceptions",
    "The place and the kind of an error multiply; tests raise a few exceptions at the top of a document.",
    [UP], [("containers", f"{UP}:Unpickler._restore_tuple, _restore_set, _restore_iterator"), ("reduce forms", f"{UP}:Unpickler._restore_reduce"), ("attributes", f"{UP}:Unpickler._restore_from_dict"), ("handlers", f"{UP}:Unpickler._call_handler_restore")],
    "an exception injected into one call of user code, chosen among all counted ones, compared by identity with what reaches the caller", "14 kinds of user code in 22 kinds of positions, 27 exceptions")

#@@MORE@@


def main():
    checks, na = [], []
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in sorted(PROPS, key=lambda p: p["pid"]):
            assert p["statement"].count(". ") <= 2, p["pid"]
            rec = {
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "observe_at": [p["monitor"]], "hook_needed": None},
            }  # fmt: skip
            f.write(json.dumps(rec) + "\n")
            if os.path.exists(os.path.join(ROOT, "lib", "props", p["pid"].lower() + ".py")):
                cmd = f"/opt/venv/bin/python run.py {p['pid']} --tier "
                checks.append({
                    "property": p["pid"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                    "evidence_file": f"evidence/{p['pid']}.json",
                    "technique": "runtime monitoring: " + p["monitor"], "level": "exploration",
                    "level_note": f"Seeded search: {p['note']}. Trusts the oracle in lib/iso.py or the module's own model; absence of a violation is evidence, not proof.",
                })  # fmt: skip
            else:
                na.append({"property": p["pid"], "reason": "check not built yet"})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": na,
                   "notes": "Checks import jsonpickle straight from /repo's working tree; no build products, no hooks in /repo."}, f, indent=1)  # fmt: skip
        f.write("\n")
    design()


def design():
    here = os.path.dirname(os.path.abspath(__file__))
    out = [open(os.path.join(here, "design_head.md"), encoding="utf-8").read().rstrip(), "", "## Properties and how each is decided", ""]
    for p in sorted(PROPS, key=lambda p: p["pid"]):
        out += [f"### {p['pid']} {p['title']}", "", p["statement"], "",
                f"- Quantified over: {p['text']} ({', '.join(p['over'])}).",
                f"- Monitor and oracle: {p['monitor']}.",
                f"- Workload and bounds: {p['note']}.",
                f"- Why tests cannot settle it: {p['why']}",
                f"- Anchored at: {'; '.join(w for _, w in p['mechanism'])}.", ""]  # fmt: skip
    known, fixed = [], []
    for line in open(os.path.join(ROOT, "known_findings.txt"), encoding="utf-8"):
        if line.startswith("known: "):
            known.append(line.strip()[len("known: ") :])
        elif line.startswith("fixed: "):
            fixed.append(line.strip()[len("fixed: ") :])
    out += ["## Known findings (not repaired)", "", "Each has its own probe in the check; the workloads leave exactly that input out.", ""]
    out += [f"- {x}" for x in known] + ["", "## Defects found and repaired in /repo", ""] + [f"- {x}" for x in fixed] + [""]
    path = os.path.join(here, "catches.json")
    if os.path.exists(path):
        rows = json.load(open(path, encoding="utf-8"))
        out += ["## Planted bugs and what catches them", "", "| bug | property | needs | caught by |", "| --- | --- | --- | --- |"]
        for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
            meta = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json"), encoding="utf-8"))
            out.append(f"| {b} | {meta['property']} | {meta['needs']} | {', '.join(rows[b]) or 'missed' if b in rows else 'not run'} |")
        out.append("")
    with open(os.path.join(ROOT, "DESIGN.md"), "w", encoding="utf-8") as f:
        f.write("\n".join(out))


if __name__ == "__main__":
    main()
