"""The properties: one place from which properties.jsonl and MANIFEST.json are made
(python3 tools/gen.py)."""
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    assert len(title) <= 80, title
    PROPS.append(dict(
        id=id, title=title, statement=" ".join(statement.split()), over=over,
        text=" ".join(text.split()), why=" ".join(why.split()), files=files,
        mech=mech, technique=technique, note=" ".join(note.split()),
        state=list(state), observe=list(observe)))


NOTE = ("Generated-input search: no violation among the cases counted in the evidence file; "
        "absence is not established. Trusts gcc, the reference written in the harness and the "
        "stand-ins in /verif/shims for third-party libraries that are not installed. ")

prop(
    "C01", "A value is a faithful container with lawful comparison and hashing",
    """A dynamic value reports exactly the type and content last put in it, whatever assignments,
    copies, moves, in-place edits and relocations happened in between, and reading it as another type
    fails cleanly. Equality is reflexive and symmetric, != is its negation, < and > (<= and >=) mirror
    each other, numbers compare across numeric types as plain numbers, lists element by element, an
    impulse equals every scalar, text or list, and text never equals a number. Identical values hash
    identically.""",
    ["inputs", "histories"],
    "For every value of every type (nested lists included), every pair of values and every history of assignments over a pool of values.",
    "ValueTest.cpp compares a fixed table of literals one operator at a time; it does not run assignment histories or arbitrary pairs and nested lists, and it is not built here.",
    ["src/ossia/network/value/value.cpp", "src/ossia/network/value/value.hpp",
     "src/ossia/detail/hash_map.hpp", "src/ossia/network/value/value_hash.hpp"],
    [dict(name="discriminated union with manual lifetime", where="src/ossia/network/value/value_variant_impl.hpp"),
     dict(name="comparison visitors", where="src/ossia/network/value/value.cpp value_comparison_visitor2")],
    "stateful property-based testing against a reference model of values",
    NOTE + "The reference comparison follows the documented quirk that an impulse is equal to anything.")

prop(
    "C02", "Converting a value to another type follows one fixed table",
    """Converting any value to any other type gives the result of one fixed table: numbers convert as the
    language converts them, text holding a number reads as that number, a vector or list stands for its first
    component where a scalar is wanted, missing components read as zero, and a conversion that has no meaning
    gives the neutral value. Converting at compile-time type, at run-time type or to the type of another value
    agree, converting to the type a value already has changes nothing, and type predicates match the content.""",
    ["inputs"],
    "For every value of every type (nested lists, numeric and arbitrary text included) and every target type.",
    "Existing tests convert a handful of literals; source x target x content is 11 x 11 x unbounded, with text and nested lists among them.",
    ["src/ossia/network/value/value_conversion.hpp", "src/ossia/network/value/value_algorithms.hpp",
     "src/ossia/network/value/value_traits.hpp", "src/ossia/network/value/value.cpp"],
    [dict(name="value_converter specialisations", where="src/ossia/network/value/detail/value_conversion_impl.hpp"),
     dict(name="run-time conversion", where="src/ossia/network/value/value.cpp convert()")],
    "property-based testing against a reference conversion table, shrinking to a replay",
    NOTE)

prop(
    "C03", "The text form of a value reads back as the same value",
    """Printing any value and parsing the text gives back a value of the same type and content (floats to the
    printed precision), also when it is text with quotes, backslashes or line breaks, and also inside nested
    lists. The printed form has the documented shape, and parsing arbitrary text never crashes and either
    yields a value or reports that there is none.""",
    ["inputs"],
    "For every value of every type, nested lists of any depth, and every byte string given to the parser.",
    "No existing test parses printed text back; a table of literals cannot cover quoting, nesting and malformed text.",
    ["src/ossia/network/value/detail/value_parse_impl.hpp", "src/ossia/network/value/format_value.hpp",
     "src/ossia/network/value/value.cpp"],
    [dict(name="value grammar", where="src/ossia/network/value/detail/value_parse_impl.hpp"),
     dict(name="value printer", where="src/ossia/network/value/format_value.hpp")],
    "round-trip property-based testing and generated malformed inputs",
    NOTE + "The parser runs on the Boost.Spirit X3 of the sandbox.")

prop(
    "C04", "Reading and merging at an index path touches exactly that component",
    """Reading a value at a path of indices returns the component there, and nothing when the path leaves the
    value. Merging a value into another at a path changes that component only: containers merge element by
    element, lists grow as needed, components the incoming value does not mention keep their content, and a
    sequence of such writes leaves exactly what each component was last given.""",
    ["inputs", "histories"],
    "For every nested value, every index path (past the end included) and every history of writes at paths.",
    "Existing tests merge a few literals at one index; histories of nested paths into growing lists are unbounded.",
    ["src/ossia/network/value/value_algorithms.hpp", "src/ossia/network/value/value.cpp",
     "src/ossia/detail/destination_index.hpp"],
    [dict(name="get_value_at_index / value_merger", where="src/ossia/network/value/value_algorithms.hpp")],
    "model-based property testing (reference merge) over write histories",
    NOTE)

prop(
    "C05", "A bounded value ends in its range, at the place its mode says",
    """Whatever the value, applying a domain with a minimum and/or maximum under a bounding mode yields each
    component inside the bounds that mode enforces: clip moves it to the nearest bound, low and high enforce
    one side, wrap and fold take it to the equivalent position modulo the range, free changes nothing, and a
    value already inside is returned unchanged. Per-component bounds apply to their component only, and unset
    bounds do not constrain.""",
    ["inputs"],
    "For every value type (scalars, vectors, lists), every domain form and every bounding mode.",
    "Existing tests clamp a few constants; the domain-form x value-form x mode matrix with boundary values is far larger.",
    ["src/ossia/network/domain/domain.hpp", "src/ossia/network/domain/domain_base_impl.hpp",
     "src/ossia/network/domain/detail/clamp_visitors.hpp", "src/ossia/network/domain/clamp.cpp",
     "src/ossia/network/domain/detail/generic_domain.hpp", "src/ossia/network/domain/detail/numeric_domain.hpp",
     "src/ossia/network/domain/detail/array_domain.hpp", "src/ossia/network/domain/detail/value_set_domain.hpp", "src/ossia/detail/math.hpp"],
    [dict(name="clamp / wrap / fold functions", where="src/ossia/detail/math.hpp"),
     dict(name="apply_domain visitors", where="src/ossia/network/domain/detail/")],
    "property-based testing against a reference computed in wide precision",
    NOTE + "wrap and fold are compared to the mathematical position with a tolerance for float rounding.")

prop(
    "C06", "A domain keeps the bounds and allowed values it was given",
    """A domain made from bounds or allowed values reports them back, only lets allowed values through (a value
    outside the set is refused or replaced by an allowed one), and after any history of changing its minimum,
    maximum or allowed values reports exactly the last ones set. Creating a domain for a type, converting a
    domain to another type and building it from lists keep every bound that the type can express.""",
    ["inputs", "histories"],
    "For every domain of every value type and every history of edits to bounds and allowed values.",
    "Existing tests build a few domains and read one bound; edit histories and sets per component are not sampled.",
    ["src/ossia/network/domain/domain_base.hpp", "src/ossia/network/domain/domain_base.cpp",
     "src/ossia/network/domain/domain_conversion.hpp", "src/ossia/network/domain/detail/domain_impl.cpp"],
    [dict(name="set_min/set_max/set_values, make_domain", where="src/ossia/network/domain/detail/domain_impl.cpp")],
    "stateful property-based testing against a model of bounds and sets",
    NOTE)

prop(
    "C07", "Converting between units preserves the physical quantity",
    """Converting a value from any unit to another unit of the same dataspace gives the same physical quantity
    as an independent textbook computation, converting back returns the value, and going through a third unit
    changes nothing, up to float precision. Converting to the same unit is the identity, and units of
    different dataspaces never mix.""",
    ["inputs"],
    "For every pair and chain of units in distance, angle, gain, speed, time, position, orientation and color, and every quantity in their range.",
    "Existing tests convert a few constants in a few units; over 60 units give thousands of pairs, and many are only correct on part of their range.",
    ["src/ossia/network/dataspace/dataspace_visitors.hpp", "src/ossia/network/dataspace/dataspace_visitors.cpp",
     "src/ossia/network/dataspace/position.hpp", "src/ossia/network/dataspace/color.hpp",
     "src/ossia/network/dataspace/angle.hpp", "src/ossia/network/dataspace/distance.hpp",
     "src/ossia/network/dataspace/gain.hpp", "src/ossia/network/dataspace/orientation.hpp",
     "src/ossia/network/dataspace/speed.hpp", "src/ossia/network/dataspace/time.hpp"],
    [dict(name="to_neutral / from_neutral of each unit", where="src/ossia/network/dataspace/*.hpp")],
    "differential and round-trip property-based testing against textbook formulas",
    NOTE + "Pixel distances are left out (they use a resolution that nothing sets); ranges where a unit is not "
    "injective are compared in the physical quantity rather than in the numbers.")

prop(
    "C08", "Unit names are unambiguous and values with a unit merge by component",
    """Every unit prints a name that parses back to it, every documented spelling and letter case of a name
    finds it, per-component accessors included, and other text finds nothing. A plain number or list put into
    a value that has a unit keeps the unit and sets exactly the components addressed, whole, at an index or
    through a mask; every other component keeps its content.""",
    ["inputs"],
    "For every unit, every spelling and near-spelling of its name, every value and every index or mask.",
    "Existing tests parse a few names; misspellings, accessor suffixes and component masks are not enumerated.",
    ["src/ossia/network/dataspace/dataspace_parse.hpp", "src/ossia/network/dataspace/dataspace_visitors.cpp",
     "src/ossia/network/dataspace/dataspace.cpp", "src/ossia/network/dataspace/detail/make_unit.hpp"],
    [dict(name="unit parser tables", where="src/ossia/network/dataspace/detail/dataspace_impl.cpp"),
     dict(name="merge visitors", where="src/ossia/network/dataspace/detail/dataspace_merge.hpp")],
    "property-based testing against reference name tables and a model of merging",
    NOTE + "One known finding (polar_components) is recorded.")

prop(
    "C32", "Framed byte streams deliver exactly the messages that were written",
    """Any sequence of messages written to a stream with SLIP or size-prefix framing is delivered by the
    decoder as the same messages in the same order, however the transport splits or merges the bytes. After
    damaged bytes or joining in the middle, the SLIP decoder recovers at the next message boundary; no byte
    stream makes a decoder crash, read outside its buffer or deliver bytes that were not in a frame.""",
    ["inputs", "histories", "fault_sequences"],
    "For every sequence of messages, every chunking of the bytes, every corruption and every prefix lost.",
    "No existing test exercises the framing; chunkings and corruptions are combinatorial.",
    ["src/ossia/network/sockets/slip_framing.hpp", "src/ossia/network/sockets/size_prefix_framing.hpp",
     "src/ossia/network/sockets/writers.hpp"],
    [dict(name="SLIP encoder/decoder", where="src/ossia/network/sockets/slip_framing.hpp"),
     dict(name="size prefix encoder/decoder", where="src/ossia/network/sockets/size_prefix_framing.hpp")],
    "round-trip and fault-injection property testing under AddressSanitizer/UBSan",
    NOTE + "The transport is an in-memory stream with scripted short reads and writes.")

prop(
    "C23", "Durations add, compare and convert to samples without losing time",
    """Adding and subtracting durations is exact over the whole range, infinite durations absorb every
    operation, equal themselves only and exceed every finite duration, and no operation changes its operands.
    Comparing durations is a total order on finite ones; accumulating steps in any grouping gives the same
    date. Converting a duration to samples and back, or to milliseconds, loses less than one unit and keeps
    the order of dates.""",
    ["inputs", "histories"],
    "For every pair of durations, finite or infinite, every sequence of steps and every sample ratio.",
    "TimeValueTest is not built here and checks literals; overflow, infinity and accumulation need every pair.",
    ["src/ossia/editor/scenario/time_value.hpp", "src/ossia/editor/scenario/time_signature.hpp"],
    [dict(name="saturating durations", where="src/ossia/editor/scenario/time_value.hpp")],
    "property-based testing against 128-bit integer arithmetic",
    NOTE + "<= and >= between two infinite durations are left out (both are false by design of the type).")

prop(
    "C24", "A tick is cut, looped and quantified without losing or repeating time",
    """Cutting a tick anywhere gives consecutive ticks that cover exactly the same dates, samples and musical
    positions. Looping a tick plays each pass inside the loop with the dates it would have had and announces
    one restart between passes. A quantification date lies inside its tick, on a division of the bar, and is
    reported by exactly one of any sequence of consecutive ticks; the metronome reports each beat once.""",
    ["inputs", "histories"],
    "For every tick (dates, offset, speed, tempo, signature, bars), every sequence of consecutive cuts and every loop length.",
    "No existing test covers ticks; boundaries between ticks (a bar at the first or last date) are what breaks, and depend on every cut.",
    ["src/ossia/dataflow/token_request.hpp", "src/ossia/editor/scenario/time_value.hpp"],
    [dict(name="loop, quantification and metronome", where="src/ossia/dataflow/token_request.hpp")],
    "metamorphic and model-based property testing (a tick against any cutting of it)",
    NOTE + "Bars that are not a whole multiple of the division (a TODO of the code) are not generated.")

prop(
    "C29", "Cable order algorithms agree with plain reachability",
    """After any sequence of added and removed edges, the transitive closure says that a node precedes another
    exactly when a path of edges leads from one to the other, and updating it step by step gives the same as
    computing it from scratch. A breadth-first search visits exactly the reachable nodes, each once, in order of
    distance. The colour map stores independently one colour per node.""",
    ["inputs", "histories"],
    "For every directed graph (cycles and parallel edges included) and every history of insertions.",
    "No existing test runs these algorithms on generated graphs; errors show on particular shapes only.",
    ["src/ossia/dataflow/graph/transitive_closure.hpp", "src/ossia/dataflow/graph/breadth_first_search.hpp",
     "src/ossia/dataflow/graph/graph_utils.hpp"],
    [dict(name="incremental transitive closure", where="src/ossia/dataflow/graph/transitive_closure.hpp")],
    "model-based property testing against a matrix reachability reference",
    NOTE)

prop(
    "C33", "Containers, helper algorithms and attribute sets do what a plain model does",
    """Every sequence of operations on the library's containers (safe vectors and sets, pointer sets, string
    maps, audio buffers), on the extended attributes of a node and on the listening table leaves the same content
    as a plain model, and reading never changes the content. Algorithms over ranges, tuples and numbers (finding,
    erasing, moving to the end, closest name, clamp, wrap, fold, rescale) return what their definition says for
    every input.""",
    ["inputs", "histories"],
    "For every history of operations on each container and every input of each algorithm.",
    "Existing tests do not touch these helpers; histories and boundary inputs are unbounded.",
    ["src/ossia/detail/any_map.hpp", "src/ossia/detail/safe_vec.hpp", "src/ossia/detail/ptr_set.hpp",
     "src/ossia/detail/string_map.hpp", "src/ossia/detail/algorithms.hpp", "src/ossia/detail/math.hpp",
     "src/ossia/detail/for_each_in_tuple.hpp", "src/ossia/detail/closest_element.hpp",
     "src/ossia/network/base/listening.hpp"],
    [dict(name="extended attributes", where="src/ossia/detail/any_map.hpp and src/ossia/network/base/parameter_data.hpp")],
    "stateful property-based testing against plain models under AddressSanitizer/UBSan",
    NOTE)

prop(
    "C34", "Every callback hears exactly the calls made while it is registered and enabled",
    """A callback added to a list is called once, with the same arguments and in a fixed order, for each
    notification made while it is registered and enabled, and never otherwise. Adding, removing, disabling,
    replacing or clearing callbacks, at any saved position and from any thread, affects that callback only;
    first-added and last-removed notices are given exactly when the list stops and starts being empty.""",
    ["histories", "schedules"],
    "For every history of additions, removals, disabling and notifications, and for threads doing them at once.",
    "No existing test covers the callback container; positions staying valid across other edits is a property of histories.",
    ["src/ossia/detail/callback_container.hpp", "src/ossia/network/base/value_callback.hpp"],
    [dict(name="callback_container", where="src/ossia/detail/callback_container.hpp")],
    "stateful property-based testing against a list model, plus randomised threads under AddressSanitizer",
    NOTE + "Thread schedules are the ones the machine produces with random delays; they are not enumerated.")

prop(
    "C35", "Structures shared between threads lose, repeat or mix up nothing",
    """Maps and containers guarded by a lock behave as if each operation ran alone; objects taken from a pool
    are usable, have the requested size, are never handed to two users at once and can be reused after being
    given back. A single-producer queue delivers every element once, in order.""",
    ["histories", "schedules"],
    "For every history of operations and for threads running such histories at once.",
    "No existing test uses several threads on these structures; a single history cannot show that operations do not interleave.",
    ["src/ossia/detail/locked_container.hpp", "src/ossia/network/base/listening.hpp", "src/ossia/detail/buffer_pool.hpp",
     "src/ossia/detail/lockfree_queue.hpp"],
    [dict(name="locks and pools", where="src/ossia/detail/*.hpp")],
    "stateful property-based testing and randomised thread schedules under AddressSanitizer",
    NOTE + "Thread schedules are the ones the machine produces with random delays; they are not enumerated.")

prop(
    "C22", "Curves, behaviours and mappings give the value their points define",
    """A curve holds its start value before its first segment, follows the shape of each segment between two
    points, passes exactly through its points and holds the last one, whatever points were added, removed or
    moved before, for copies too, and with a start value read from an address as of the last reset. Every easing
    starts at 0, ends at 1 and follows its formula in between. Behaviours and mappings apply this to every
    element of vectors and lists, whatever numeric type drives them, and leave elements without a curve empty.""",
    ["inputs", "histories"],
    "For every easing and ratio, every history of edits of a curve and every abscissa, every nesting of behaviours and every driving value.",
    "CurveTest is not built here and samples a few points of a linear curve; the built test covers the empty segment only.",
    ["src/ossia/editor/curve/curve.hpp", "src/ossia/editor/curve/curve_segment/easing.hpp",
     "src/ossia/editor/curve/curve_segment/linear.hpp", "src/ossia/editor/curve/curve_segment/power.hpp",
     "src/ossia/editor/curve/curve_segment/sin.hpp", "src/ossia/editor/curve/curve_segment/empty.hpp",
     "src/ossia/editor/curve/behavior.hpp", "src/ossia/editor/automation/curve_value_visitor.hpp",
     "src/ossia/editor/mapper/detail/mapper_visitor.hpp"],
    [dict(name="piecewise evaluation", where="src/ossia/editor/curve/curve.hpp value_at"),
     dict(name="behaviour evaluation", where="src/ossia/editor/automation/curve_value_visitor.hpp")],
    "stateful property-based testing against a reference curve and independent easing formulas",
    NOTE + "Adding a second point at the same abscissa (ignored by the code) is not generated.")

prop(
    "C31", "Ports, cables and delay lines carry exactly what was put in them",
    """A value port keeps every value written, with its date, one per date when it replaces. Cables bring values
    converted between the units and rescaled between the ranges of their ports, read components when an index
    asks for it, leave the source alone, and delay lines give back tick by tick what was stored. Audio is summed
    channel by channel from silence whatever the sizes, gains and pans multiply it, and MIDI messages are encoded
    as the standard says.""",
    ["inputs", "histories"],
    "For every history of writes, cables, delayed reads, mixes and gain changes, over ports of every type, unit, range and size.",
    "No existing test looks at the content of ports; mixing depends on combinations of sizes, dates and port types.",
    ["src/ossia/dataflow/data.cpp", "src/ossia/dataflow/data_copy.hpp", "src/ossia/dataflow/value_port.hpp",
     "src/ossia/dataflow/audio_port.hpp", "src/ossia/dataflow/midi_port.hpp", "src/ossia/dataflow/port.cpp"],
    [dict(name="value ports", where="src/ossia/dataflow/data.cpp value_port"),
     dict(name="mixing and delay lines", where="src/ossia/dataflow/data_copy.hpp")],
    "stateful property-based testing against a reference port model",
    NOTE + "Characters and booleans rescaled between ranges are checked for their type only.")

prop(
    "C09", "The tree of a device stays consistent whatever is done to it",
    """After any history of creations, renamings and removals, children of a node have distinct valid names (the
    requested one, or its next free instance), every node is found from each of its addresses and has the parent,
    device, parameter and addresses that the history gives it, and the tree of a device that cannot change does
    not. Every creation, renaming and removal of a node or parameter is notified exactly once, children going
    before their parent. Threads creating, adding and removing children at once keep this true.""",
    ["histories", "schedules"],
    "For every history over every tree, names that are free, taken, instanced or invalid, and threads editing the same node.",
    "Existing tests create a few nodes in sequence; consistency after arbitrary edits and from several threads is not sampled.",
    ["src/ossia/network/base/node.cpp", "src/ossia/network/generic/generic_node.cpp",
     "src/ossia/network/generic/generic_device.cpp", "src/ossia/network/base/name_validation.cpp",
     "src/ossia/network/base/osc_address.cpp", "src/ossia/network/base/node_functions.cpp"],
    [dict(name="child names", where="src/ossia/network/base/name_validation.cpp sanitize_name"),
     dict(name="tree edits", where="src/ossia/network/base/node.cpp")],
    "model-based stateful testing against a reference tree, plus randomised threads",
    NOTE + "Instance numbers near the end of the integer range are not generated. Thread schedules are the ones the machine produces.")

prop(
    "C11", "Address patterns designate exactly the nodes their description says",
    """A pattern finds the nodes whose names follow it part by part: ? is at most one character, * any text,
    ! an optional instance, [..] a class, {a,b} alternatives that nest, {1..9..2} numbers with a step, .. the parent,
    // any depth, with or without a device; other characters stand for themselves. Creating nodes or parameters
    from alternatives, classes and ranges makes each combination once, in order, reusing the nodes that have no
    parameter yet. Listing children orders them by priority, then name, then instance number.""",
    ["inputs"],
    "For every pattern of the documented syntax over every tree, from one or several starting nodes, repeatedly.",
    "PathTest is not built here and samples a dozen patterns; steps, single-element ranges and unusual characters have no test.",
    ["src/ossia/network/common/path.cpp", "src/ossia/network/common/path.hpp",
     "src/ossia/network/base/node_functions.cpp", "src/ossia/network/base/name_validation.hpp"],
    [dict(name="pattern traversal", where="src/ossia/network/common/path.cpp make_path, apply"),
     dict(name="brace expansion", where="src/ossia/network/base/node_functions.cpp create_nodes")],
    "property-based testing: generated pattern syntax trees against an independent matcher and expander",
    NOTE + "Negated classes, regular-expression operators and empty alternatives are outside the documented syntax and are not generated.")

prop(
    "C12", "Parameters hold, send and announce exactly what they are given",
    """After any history, a parameter holds the last value written, converted to its type; observers are told of
    every non-quiet write exactly once, in order, and the protocols of the device (each of them when several are
    multiplexed, also after one fails or comes later) receive exactly what is pushed, unless it is muted, disabled
    or repeated with the repetition filter on. Changing type, unit, domain, bounding, access or a flag keeps the
    others, converts value and domain, and is announced once; the first and last observers start and stop the
    observation. Aliases act on their origins, and threads only ever see whole values.""",
    ["histories", "schedules"],
    "For every history of writes, pushes, pulls, attribute changes, subscriptions, multiplexed protocols coming and going, and for readers and writers on several threads.",
    "No built test touches a parameter; upstream tests push a few values in sequence and never combine filters, observers and protocols.",
    ["src/ossia/network/generic/generic_parameter.cpp", "src/ossia/network/base/parameter.cpp",
     "src/ossia/network/base/parameter_data.hpp", "src/ossia/network/local/local.cpp",
     "src/ossia/network/generic/alias_node.cpp", "src/ossia/network/base/device.cpp"],
    [dict(name="values", where="src/ossia/network/generic/generic_parameter.cpp set_value, push_value"),
     dict(name="multiplexing", where="src/ossia/network/local/local.cpp")],
    "model-based stateful testing with recording protocols, plus randomised threads",
    NOTE + "Value conversion itself is the reference of C02. Values that are not set are not written.")

prop(
    "C42", "Node attributes and type descriptions are what they were set to",
    """Each attribute of a node (tags, description, priority, default value, flags, any custom one) reads back as
    last set, independently of the others and with its own type, removing it leaves nothing, copies are
    independent, and exactly the changes are announced. A parameter made or changed from a value type, a unit, an
    extended type or a known type name in any case has the value type, unit and extended type this implies, and
    an unknown name makes nothing.""",
    ["inputs", "histories"],
    "For every history of settings and removals on several nodes, and every type description.",
    "NodeTest is not built here and sets each attribute once.",
    ["src/ossia/network/base/node_attributes.cpp", "src/ossia/network/base/device.hpp", "src/ossia/detail/any_map.hpp",
     "src/ossia/network/common/complex_type.cpp", "src/ossia/network/common/extended_types.cpp"],
    [dict(name="attributes", where="src/ossia/detail/any_map.hpp, src/ossia/network/base/device.hpp node_base::set"),
     dict(name="types", where="src/ossia/network/common/complex_type.cpp")],
    "model-based stateful testing and property-based testing",
    NOTE + "The table of type names is sampled (about sixty names), not repeated in full.")

prop(
    "C13", "OSC messages carry a value exactly and are understood for what they say",
    """For any value and each flavour of OSC (1.0, 1.1, extended) exactly one well-formed message is sent, whose
    address, type tags and arguments are those of the flavour (nested lists as arrays or flattened, colours,
    buffers as blobs), whatever its size up to the UDP limit and whatever the buffer was used for; bundles hold the
    messages of those parameters that may be sent, in order. A received message sets every parameter its address or
    pattern designates to its arguments converted to the type of the parameter, within its domain, tells the
    observers once, is reported as unhandled when it designates none, and when learning creates a parameter of its
    type and value.""",
    ["inputs", "histories"],
    "For every value, unit, extended type, address, pattern and argument list (arrays included) in each flavour of OSC, and sequences of messages on one device.",
    "The upstream OSC tests (not built here) send a handful of scalars over a socket and print what they receive.",
    ["src/ossia/network/osc/detail/osc_value_write_visitor.hpp", "src/ossia/network/osc/detail/osc_common_policy.hpp",
     "src/ossia/network/osc/detail/osc_1_0_policy.hpp", "src/ossia/network/osc/detail/osc_1_1_policy.hpp",
     "src/ossia/network/osc/detail/osc_1_1_extended_policy.hpp", "src/ossia/network/osc/detail/bundle.hpp",
     "src/ossia/network/osc/detail/osc.hpp", "src/ossia/network/osc/detail/osc_receive.hpp",
     "src/ossia/network/osc/detail/osc_messages.cpp"],
    [dict(name="encoding", where="src/ossia/network/osc/detail/osc_value_write_visitor.hpp and the policies"),
     dict(name="bundles", where="src/ossia/network/osc/detail/bundle.hpp make_bundle"),
     dict(name="decoding", where="src/ossia/network/osc/detail/osc.hpp osc_inbound_visitor, osc_receive.hpp on_input_message"),
     dict(name="learning", where="src/ossia/network/osc/detail/osc_messages.cpp osc_learn")],
    "property-based testing against an independent OSC codec and conversion model, compiled with address and undefined-behaviour sanitizers",
    NOTE + "Texts with null characters, colours out of 0..255 and non-finite numbers are not sent.")

prop(
    "C14", "Any bytes can arrive on an OSC port",
    """Whatever packet is received (random, truncated, with wrong lengths, type tags or nesting), nothing outside of the
    packet is read, no exception escapes, every parameter keeps a value of its type, and later packets are still
    received. All messages of a well-formed packet, however its bundles are nested, are delivered once each in the order
    they have in it.""",
    ["inputs", "histories"],
    "For every sequence of well-formed, damaged and random packets on devices with parameters of every type, also while learning.",
    "No test feeds damaged packets or nested bundles.",
    ["src/ossia/network/osc/detail/osc_packet_processor.hpp", "src/ossia/network/osc/detail/osc.hpp",
     "src/ossia/network/osc/detail/osc_receive.hpp", "src/ossia/network/osc/detail/osc_messages.cpp",
     "src/ossia/protocols/osc/osc_generic_protocol.hpp"],
    [dict(name="packets", where="src/ossia/network/osc/detail/osc_packet_processor.hpp"),
     dict(name="arguments", where="src/ossia/network/osc/detail/osc.hpp")],
    "structured fuzzing (mutation of generated packets) with sanitizers and a delivery-order oracle",
    NOTE + "The parsing of bytes itself is oscpack's, replaced by a bounds-checked stand-in.")

prop(
    "C15", "Devices connected by OSC stay in step, without loops",
    """When two devices are connected by any OSC protocol, each push on one (unless read-only for a client, muted, disabled
    or repeated under the repetition filter) is one packet, whose delivery gives the parameter of the other device the
    value, within its domain and tells its observers once; nothing is sent otherwise, in particular nothing comes back.
    A device with several protocols sends what it pushes to all of them, and forwards what one receives to the others,
    only when it echoes. A message reaches the parameter which has its address now, whatever was renamed or removed.""",
    ["histories"],
    "For every history of pushes, bundles, raw messages, attribute and observer changes and deliveries on two devices, for six kinds of protocol, and on a device with up to three.",
    "No built test connects two devices; upstream ones push values one by one and sleep.",
    ["src/ossia/network/osc/detail/osc_protocol_common.hpp", "src/ossia/protocols/osc/osc_generic_protocol.hpp",
     "src/ossia/network/osc/osc.cpp", "src/ossia/network/osc/detail/sender.hpp", "src/ossia/network/osc/detail/receiver.hpp",
     "src/ossia/network/local/local.cpp"],
    [dict(name="client and server rules", where="src/ossia/network/osc/detail/osc_protocol_common.hpp"),
     dict(name="echo", where="src/ossia/network/base/device.cpp apply_incoming_message, src/ossia/network/local/local.cpp")],
    "model-based stateful testing over an in-memory network with controlled delivery",
    NOTE + "Sockets are replaced by in-memory pipes; packet loss and reordering of UDP are outside of the claim.")

prop(
    "C25", "A time interval runs its processes over its duration, contiguously",
    """Ticking an interval advances its date by the tick times its speed (and its tempo and quantification when it has
    them), and each of its processes is asked for exactly the part ticked: pieces follow one another without gap or
    overlap however a duration is cut in ticks, with the offset, speed, tempo, signature and musical position that apply
    there. start, stop, pause, resume, offset, transport, muting, adding and removing processes reach each process
    exactly once and in that order, and stopping leaves the interval and its node ready to be run again.""",
    ["inputs", "histories"],
    "For every interval (limits, speed, tempo curve, signatures), set of processes and history of operations and ticks.",
    "The upstream tests run a few intervals in real time and print.",
    ["src/ossia/editor/scenario/time_interval.cpp", "src/ossia/editor/scenario/time_interval.hpp",
     "src/ossia/editor/scenario/time_process.cpp", "src/ossia/editor/scenario/time_process.hpp"],
    [dict(name="ticks", where="src/ossia/editor/scenario/time_interval.cpp tick, tick_offset, tick_impl"),
     dict(name="life cycle", where="src/ossia/editor/scenario/time_interval.cpp start, stop, offset, transport, pause, resume")],
    "model-based stateful testing with recording processes, and a metamorphic relation between two ways of cutting a duration",
    NOTE + "Nothing is claimed of adding a process twice.")

prop(
    "C26", "A scenario makes its events happen at their dates, in its order",
    """Whatever the lengths of the ticks, each interval of a scenario starts when the event before it happens, runs between
    its minimum and its maximum until the trigger after it is met, and hands the rest of the tick to what follows, with
    the matching offset. An event happens once its condition holds and all that leads to it has reached it, and is
    disposed otherwise, with what only it leads to; triggers evaluate and tell it exactly between the two bounds,
    quantized ones happen on their grid. Stopping brings everything back, and roots and loops restart what follows
    them.""",
    ["inputs", "histories", "schedules"],
    "For every scenario (joins, conditions, triggers, several roots, loops, speeds), every history of conditions and every cutting of time in ticks.",
    "The upstream scenario tests build a handful of fixed graphs, run them in real time and mostly print.",
    ["src/ossia/editor/scenario/scenario.cpp", "src/ossia/editor/scenario/scenario.hpp",
     "src/ossia/editor/scenario/detail/scenario_execution.cpp",
     "src/ossia/editor/scenario/detail/scenario_sync_execution.cpp",
     "src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp",
     "src/ossia/editor/scenario/time_event.cpp", "src/ossia/editor/scenario/time_sync.cpp"],
    [dict(name="running a tick", where="src/ossia/editor/scenario/detail/scenario_execution.cpp state_impl, run_interval"),
     dict(name="events", where="src/ossia/editor/scenario/detail/scenario_execution.cpp make_happen, make_dispose"),
     dict(name="triggers", where="src/ossia/editor/scenario/detail/scenario_sync_execution.cpp process_this, trigger_sync"),
     dict(name="end of execution", where="src/ossia/editor/scenario/scenario.cpp stop, time_sync.cpp reset")],
    "model-based testing of generated scenarios against an event-driven reference, with metamorphic invariants where a graph has no closed form",
    NOTE + "Dates of quantized triggers are claimed to within one unit (they are computed in floating point).")

prop(
    "C28", "The dataflow graph runs the enabled nodes in order and delivers the data once",
    """At each tick every enabled node with something to do runs exactly once, after the nodes it depends on: by a
    connection between ports, a dependency, or an address one writes and the other reads (breadth-first and transitive
    schedulers). Values, MIDI and audio go through connections according to their kind (immediate or delayed, glutton or
    strict: a strict node runs only along with its peers), and to and from addresses according to the scope of the port,
    by pattern too. At the end of the tick each parameter has received what was written to it, in order, once, and
    nothing is left for the next tick. Adding, removing and connecting nodes between ticks, making even a transient
    cycle, changes nothing else.""",
    ["inputs", "histories", "schedules"],
    "For every graph, every mix of connections, addresses and scopes, every history of changes and every scheduler.",
    "The upstream dataflow tests run a handful of two-node graphs for one tick.",
    ["src/ossia/dataflow/graph/graph_utils.hpp",
     "src/ossia/dataflow/graph/graph_static.hpp", "src/ossia/dataflow/graph/graph.cpp",
     "src/ossia/dataflow/execution_state.cpp", "src/ossia/dataflow/data_copy.hpp",
     "src/ossia/dataflow/graph_node.cpp"],
    [dict(name="order of the nodes", where="src/ossia/dataflow/graph/graph_static.hpp sort_all_nodes, bfs_update, tc_update"),
     dict(name="edges and addresses", where="src/ossia/dataflow/graph/graph_utils.hpp init_node, teardown_node, disable_strict_nodes"),
     dict(name="environment", where="src/ossia/dataflow/execution_state.cpp find_and_copy, insert, commit")],
    "model-based stateful testing: the observed order is checked, then replayed by a reference which predicts all the data",
    NOTE + "A delayed glutton connection may miss data when its reader runs first, and delayed connections do not break "
    "cycles; mix_merge is not implemented upstream.")

prop(
    "C20", "Merging and committing states sends what sending each message in turn would",
    """A message sets its parameter, or only the component its index names, converted from its unit to the parameter's.
    Flattening messages and states, merged or not, gives a state whose launch leaves every parameter as launching the
    messages one by one would, whatever their indices, units and types. An execution state commits, in any of its four
    ways, the values written to each parameter in their order; between parameters, in the order of priorities or
    timestamps when asked.""",
    ["inputs", "histories"],
    "For every sequence of messages with whole values, indices, units and lists on several parameters.",
    "The upstream state tests merge pairs of messages they list.",
    ["src/ossia/editor/state/detail/state_flatten_visitor.hpp", "src/ossia/editor/state/message.cpp",
     "src/ossia/editor/state/state.cpp", "src/ossia/editor/state/flat_vec_state.hpp",
     "src/ossia/dataflow/execution_state.cpp"],
    [dict(name="launch", where="src/ossia/editor/state/message.cpp message::launch, piecewise_vec_message::launch"),
     dict(name="flatten", where="src/ossia/editor/state/detail/state_flatten_visitor.hpp state_flatten_visitor_merger"),
     dict(name="commit", where="src/ossia/dataflow/execution_state.cpp commit, commit_merged, commit_ordered, commit_priorized")],
    "differential testing: twin devices, one receiving each message in turn, the other the merged state; reference model of a message",
    NOTE + "Nothing is claimed of a message without index merged in an indexed list (documented: it becomes index 0).")

prop(
    "C16", "A device described by OSCQuery is read back the same",
    """The JSON description which an OSCQuery server gives of a node, read by a mirror, builds the same tree: names,
    types, values, access and bounding modes, domains, units, repetition filters, default values, tags and every other
    attribute. Each change of an attribute, a parameter or a name, sent as the message the server would send for it,
    brings an existing mirror to the same state, including the removal of what was set.""",
    ["inputs", "histories"],
    "For every tree of nodes with parameters of any type, domain, unit and attributes, and every history of changes.",
    "The upstream tests read back a handful of fixed trees, or only print the JSON.",
    ["src/ossia/network/oscquery/detail/json_writer_detail.cpp", "src/ossia/network/oscquery/detail/json_reader_detail.cpp",
     "src/ossia/network/oscquery/detail/value_to_json.hpp", "src/ossia/network/oscquery/detail/domain_to_json.hpp",
     "src/ossia/network/oscquery/detail/attributes.cpp", "src/ossia/network/oscquery/detail/typetag.cpp",
     "src/ossia/network/oscquery/detail/oscquery_units.hpp"],
    [dict(name="writing", where="src/ossia/network/oscquery/detail/json_writer_detail.cpp"),
     dict(name="reading", where="src/ossia/network/oscquery/detail/json_reader_detail.cpp json_parser_impl")],
    "round-trip property testing between a generated device and its mirror",
    NOTE + "What the format does not tell (listed in DESIGN.md) is not claimed.")

prop(
    "C17", "An OSCQuery server and its mirrors end up agreeing",
    """Whatever is created, removed, renamed, edited or sent on the server, whatever its mirrors push, ask for or request,
    and however the messages of the several connections interleave, once all have been delivered every mirror has the
    tree, the attributes and the values of the server. A push is sent once to each peer, by websocket when the parameter
    is critical and by OSC otherwise, never by a mirror to a read-only parameter; a request to add, remove or rename a
    node reaches the application; nothing is exchanged for ever.""",
    ["histories", "schedules"],
    "For every history of edits, pushes, requests, connections and listening with one to three mirrors, and every order of delivery between connections.",
    "The upstream tests open real sockets, do one edit and sleep.",
    ["src/ossia/network/oscquery/oscquery_server.cpp", "src/ossia/network/oscquery/oscquery_mirror.cpp",
     "src/ossia/network/oscquery/detail/query_parser.hpp", "src/ossia/network/oscquery/detail/json_query_parser.hpp",
     "src/ossia/network/oscquery/detail/json_reader_detail.cpp"],
    [dict(name="notifications", where="src/ossia/network/oscquery/oscquery_server.cpp on_nodeCreated .. on_nodeRenamed"),
     dict(name="application in the mirror", where="src/ossia/network/oscquery/oscquery_mirror.cpp on_WSMessage, run_commands")],
    "model-based stateful testing of the real server and mirrors over an in-memory network with a controlled order of delivery",
    NOTE + "The websocket, HTTP and UDP transports are replaced by in-memory queues; the order within one connection is kept.")

prop(
    "C10", "Malformed OSCQuery messages do no harm",
    """Whatever a server or a mirror receives on its websocket or HTTP connection (cut, changed or made up JSON, requests
    and binary messages), neither crashes, reads or writes outside of its memory, or lets an exception escape, the other
    clients are still served, and a mirror which connects afterwards gets the tree of the server.""",
    ["inputs", "histories"],
    "For every history of well-formed, damaged and made-up messages in both directions of a session.",
    "No test sends anything malformed.",
    ["src/ossia/network/oscquery/detail/query_parser.hpp", "src/ossia/network/oscquery/detail/json_query_parser.hpp",
     "src/ossia/network/oscquery/detail/get_query_parser.hpp", "src/ossia/network/oscquery/detail/json_reader_detail.cpp",
     "src/ossia/network/oscquery/detail/value_to_json.hpp", "src/ossia/network/oscquery/oscquery_server.cpp",
     "src/ossia/network/oscquery/oscquery_mirror.cpp", "src/ossia/detail/json.hpp"],
    [dict(name="requests", where="src/ossia/network/oscquery/detail/query_parser.hpp"),
     dict(name="answers", where="src/ossia/network/oscquery/detail/json_reader_detail.cpp")],
    "structured fuzzing (mutation of the messages of a generated session in transit) with sanitizers, and an agreement oracle afterwards",
    NOTE + "JSON itself is parsed by the system's rapidjson.")

prop(
    "C19", "Presets give a tree back the values that were saved from it",
    """The preset of a tree has the value of exactly its readable and writable parameters; as text, as a list in
    JSON or as the JSON of the tree it reads back as the same addresses and values, whatever the values, names and
    nodes with both a value and children. Applied, it gives exactly these nodes these values, spares the protected
    ones, follows priorities, creates what is missing only if allowed to, and calls what it should for what it
    created. The description of a device says the attributes of its nodes. Reading damaged presets is safe and
    changes neither the tree nor its types.""",
    ["inputs", "histories"],
    "For every tree of nodes and instances with values of every type, every preset, address and damage.",
    "The preset tests are not built here and save one small tree; they use neither special values, protected nodes, priorities, missing nodes nor damaged files.",
    ["src/ossia/preset/preset.cpp", "src/ossia/network/value/detail/value_parse_impl.hpp",
     "src/ossia/network/base/node_functions.cpp"],
    [dict(name="reading and writing JSON", where="src/ossia/preset/preset.cpp explore, insert, make_json_from_node"),
     dict(name="applying", where="src/ossia/preset/preset.cpp apply_preset_node, apply_json_member_to_node")],
    "round-trip and model-based property-based testing, with AddressSanitizer in the harness",
    NOTE + "JSON does not tell a character from a text, an impulse from nothing, nor a list of 2 to 4 floats from a "
    "vector, and JSON lists group instances (foo.0, foo.1) in an array: values of instances are then a list. "
    "These are not generated where they matter.")

prop(
    "C21", "Expressions evaluate to what they say and announce every change",
    """A comparison of values and parameters, whole, at an index or in another unit, and any composition of them
    with and, or, xor, not and pulses, has the truth value of its parts at the time it is evaluated; a pulse is true
    once for each value received since it was reset. Each observer of an expression or of a part of it is told the
    new truth whenever something it depends on receives a value, and no longer once removed; parameters are observed
    exactly while someone observes. Expressions with equal parts are equal, and != is the opposite.""",
    ["inputs", "histories"],
    "For every tree of expressions, every history of values, updates, observers, evaluations and destructions.",
    "ExpressionTest files are not built here and evaluate a few atoms on constants, with at most one observer and one change.",
    ["src/ossia/editor/expression/expression.cpp", "src/ossia/editor/expression/expression_atom.cpp",
     "src/ossia/editor/expression/expression_composition.cpp", "src/ossia/editor/expression/expression_not.cpp",
     "src/ossia/editor/expression/expression_pulse.cpp"],
    [dict(name="evaluation and observation", where="src/ossia/editor/expression/*.cpp")],
    "model-based stateful property-based testing, with AddressSanitizer in the harness",
    NOTE + "Expressions which compute with exprtk are out of reach: the library is not installed.")

prop(
    "C40", "The processes of a score play what they contain, tick by tick",
    """Automations and mappings give the value of their curves at the position of the tick or for each value they
    receive; splines follow the curve of their points and gradients the colors between theirs, held at the ends;
    steps, beats and MIDI notes which fall in a tick are all played in it, once, in order and at their date, whatever
    the lengths of the ticks; every note which started is stopped, at its end, on a stop, a jump or when it is
    removed. Editing or jumping while playing loses and repeats nothing else, and contents or values which cannot be
    played are ignored.""",
    ["inputs", "histories"],
    "For every content, every partition in ticks, offset and speed, and every history of edits, stops and jumps.",
    "The node tests are not built here and run one or two ticks of one content.",
    ["src/ossia/dataflow/nodes/automation.hpp", "src/ossia/dataflow/nodes/mapping.hpp", "src/ossia/dataflow/nodes/spline.hpp",
     "src/ossia/dataflow/nodes/gradient.hpp", "src/ossia/dataflow/nodes/step.hpp", "src/ossia/dataflow/nodes/metronome.hpp",
     "src/ossia/dataflow/nodes/midi.hpp", "src/ossia/editor/mapper/detail/mapper_visitor.hpp",
     "src/ossia/editor/automation/curve_value_visitor.hpp", "src/ossia/editor/automation/tinyspline_util.hpp"],
    [dict(name="MIDI notes", where="src/ossia/dataflow/nodes/midi.hpp midi::run"),
     dict(name="curves", where="src/ossia/editor/automation/curve_value_visitor.hpp, src/ossia/editor/mapper/detail/mapper_visitor.hpp")],
    "model-based stateful property-based testing of the real nodes, with sanitizers",
    NOTE + "The MIDI messages themselves are those of a stand-in for libremidi.")

prop(
    "C44", "Sounds are played sample for sample",
    """A sound, in memory or in a wav file of any format, gives its own samples, from where it is, in its part of the
    buffer: contiguous from tick to tick whatever their lengths, in a loop or not, silent past its end, faded where it
    is discontinuous, from the date of a jump after it, on the channels asked for, also when a tick has several
    parts; at another tempo it keeps its shape at another pitch. Sines have their frequency, gains multiply by
    their level, mergers keep the channels in order. Copied, moved or reopened wav handles read the wav they were
    given.""",
    ["inputs", "histories"],
    "For every sound, loop, offset, partition in ticks and in parts of ticks, and every history of edits and jumps.",
    "The sound tests are not built here and play one constant sound; no test reads wav data, uses start channels, upmixing, jumps or several tokens in a tick.",
    ["src/ossia/dataflow/nodes/sound.hpp", "src/ossia/dataflow/nodes/sound_ref.hpp", "src/ossia/dataflow/nodes/sound_mmap.hpp",
     "src/ossia/dataflow/nodes/timestretch/raw_stretcher.hpp", "src/ossia/dataflow/nodes/timestretch/repitch_stretcher.hpp",
     "src/ossia/audio/drwav_handle.hpp", "src/ossia/audio/audio_parameter.cpp", "src/ossia/dataflow/nodes/sine.hpp",
     "src/ossia/dataflow/nodes/gain.hpp", "src/ossia/dataflow/nodes/merger.hpp"],
    [dict(name="reading the sound", where="sound_ref.hpp, sound_mmap.hpp fetch_audio, run"),
     dict(name="fades", where="src/ossia/audio/audio_parameter.cpp snd::do_fade")],
    "model-based stateful property-based testing of the real nodes, with sanitizers",
    NOTE + "dr_wav is replaced by a stand-in which reads uncompressed wav data; rubberband is not installed.")

prop(
    "C18", "A Minuit device mirrors the remote tree and survives any message",
    """Asking a remote Minuit device for its namespace rebuilds its whole tree: the same nodes with and without
    parameters, and for each parameter its type (as Minuit names it), value, access, bounds, bounding, repetition filter,
    unit and priority, whatever the order and the repetitions of the answers. Afterwards a value pushed on either side is
    the value of the other, and pulling completes exactly when the answer came, with the remote value. No message, well
    formed or not, crashes either side or prevents later exchanges.""",
    ["inputs", "histories", "schedules"],
    "For every tree of parameters with their attributes, every sequence of exchanges, and every request or answer changed in any way.",
    "No existing test runs two Minuit devices against each other; the upstream test needs real sockets and checks no content.",
    ["src/ossia/network/minuit/minuit.cpp", "src/ossia/network/minuit/detail/minuit_parser.hpp",
     "src/ossia/network/minuit/detail/minuit_common.hpp", "src/ossia/network/minuit/detail/minuit_impl.cpp"],
    [dict(name="requests and answers", where="src/ossia/network/minuit/detail/minuit_parser.hpp minuit_behavior"),
     dict(name="waiting for the tree", where="src/ossia/network/minuit/minuit.cpp update, namespace_refreshed, get_refreshed")],
    "model-based property-based testing of two real devices on an in-memory network, and structured fuzzing of messages under AddressSanitizer",
    NOTE + "UDP is an in-memory queue. Minuit has no characters nor vectors: they are not claimed to keep their type.")

prop(
    "C27", "A scenario plays the same from any date, and again in a loop",
    """Starting a scenario from any date plays exactly what playing it from the beginning would play from there on: the
    intervals running at that date continue from their middle, those before are over, those after start at their dates,
    and only if the events before them happened, which for past events depends on their conditions. So does moving it to
    another date while it plays, forwards or backwards, any number of times, and each turn of a loop, of any length
    and starting anywhere. Earlier runs leave no trace.""",
    ["inputs", "histories", "schedules"],
    "For every scenario with consistent fixed durations (joins, conditions), every date, jump and loop, and every cutting of time in ticks.",
    "The upstream tests set offsets on a fixed score and print what happens; nothing compares with a run from the start.",
    ["src/ossia/editor/scenario/detail/scenario_offset.cpp", "src/ossia/editor/scenario/scenario.cpp",
     "src/ossia/editor/scenario/time_process.hpp", "src/ossia/dataflow/token_request.hpp",
     "src/ossia/editor/scenario/time_interval.cpp"],
    [dict(name="offsets and jumps", where="src/ossia/editor/scenario/detail/scenario_offset.cpp offset_impl, transport_impl"),
     dict(name="loops", where="src/ossia/dataflow/token_request.hpp loop")],
    "model-based property-based testing against a reference computed from the dates",
    NOTE + "Speed is 1 and durations are fixed; the state sent by an offset is checked by C20, not here.")

prop(
    "C37", "The C API does exactly what the C++ library does",
    """Every function of the C API has the effect and the result of its C++ counterpart: nodes created, found, listed and
    removed; parameters, their values pushed, set, fetched and read back in every type; domains; attributes of nodes and
    parameters, present or not; values made, read and converted; callbacks for values, nodes and parameters, called once
    for each event until removed; message queues. What the API allocates is freed by the function documented for it, and
    indices past the end, absent attributes and values of another type give nothing rather than garbage.""",
    ["inputs", "histories"],
    "For every value, every domain, and every history of operations on a device, its nodes, parameters and subscriptions.",
    "No existing test of the repository that runs here exercises the C API; the upstream one makes single calls and rarely looks at results.",
    ["src/ossia-c/ossia-c.h", "src/ossia-c/ossia/ossia_node.cpp", "src/ossia-c/ossia/ossia_parameter.cpp",
     "src/ossia-c/ossia/ossia_value.cpp", "src/ossia-c/ossia/ossia_domain.cpp", "src/ossia-c/ossia/ossia_device.cpp"],
    [dict(name="conversion of handles and ownership", where="src/ossia-c/ossia/ossia_utils.hpp"),
     dict(name="arrays given back", where="src/ossia-c/ossia/ossia_value.cpp, ossia_node.cpp, ossia_parameter.cpp")],
    "stateful differential property-based testing of twin devices (C API against C++ library) under AddressSanitizer",
    NOTE + "The protocols created by the C API are not driven here (C15, C17, C18 do); reading a value with the function of "
    "another type is undefined in the documentation, only ossia_parameter_to_list and the like are required to give nothing. "
    "Null arguments are not generated.")

prop(
    "C38", "The C++98 API does exactly what the C++ library does",
    """Every operation of the C++98 API on a value, a node or a server has the effect and the result of its C++
    counterpart: values made, read and converted; nodes created, found by path or pattern, listed, renamed, removed;
    parameters of every kind with their values, units, bounds and other attributes; value callbacks, called once for
    each value until removed; requests of clients, done if and only if the callback accepts them. A handle may be
    copied, assigned (even to itself), moved, and outlive its node, its parameter and the server: then it is empty and
    answers with nothing, and it sees the parameters created later.""",
    ["inputs", "histories"],
    "For every value and every history of operations on a tree through any number of handles, in any order of destruction.",
    "No existing test of the repository that runs here exercises this API; the upstream one makes a few calls on live nodes.",
    ["src/ossia-cpp/ossia-cpp98.cpp", "src/ossia-cpp/ossia-cpp98.hpp"],
    [dict(name="handles on nodes and parameters", where="src/ossia-cpp/ossia-cpp98.cpp node::cleanup, node::cleanup_parameter, operator="),
     dict(name="requests of clients", where="src/ossia-cpp/ossia-cpp98.cpp oscquery_server::on_add_node_request")],
    "stateful differential property-based testing of twin devices (C++98 API against C++ library) under AddressSanitizer",
    NOTE + "The network side of opp::oscquery_server and opp::oscquery_mirror is that of C17. What a handle sees of a "
    "parameter replaced through another handle is not claimed.")
