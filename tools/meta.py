"""Writes properties.jsonl and MANIFEST.json from one description (run by hand)."""
import importlib
import json
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
FK = "fastkml/"


def P(ident, title, statement, over, quant, why, files, mech, technique, note, observe=()):  # noqa: N802
    return dict(ident=ident, title=title, statement=statement, over=over, quant=quant, why=why,
                files=files, mech=mech, technique=technique, note=note, observe=observe)


ALL = [
    P("P01", "Writing any KML object and reading it back gives an equal object",
      "For every element the library supports, an object tree built through the public "
      "constructors, written to text and read back in strict mode holds the same values in every "
      "attribute at every depth, with the children of each kind in the same order. Nothing is "
      "lost, invented, merged or moved to another element.",
      ["inputs"], "every object tree over all 66 element kinds, all their attributes and values",
      "The existing tests round-trip hand-picked instances and, with hypothesis, single elements "
      "at default settings; combinations of fields, depth, siblings and unusual values are open.",
      ["base.py", "helpers.py", "registry.py", "geometry.py", "features.py", "containers.py",
       "styles.py", "data.py", "gx.py", "model.py", "overlays.py", "views.py", "links.py",
       "times.py", "atom.py", "network_link_control.py", "kml.py"],
      [("registry-driven writing", "fastkml/base.py:_XMLObject.etree_element"),
       ("registry-driven reading", "fastkml/base.py:_XMLObject._get_kwargs"),
       ("typed getters and setters", "fastkml/helpers.py"),
       ("per-class registrations", "fastkml/*.py:registry.register")],
      "property-based round trip over generated object trees, with shrinking",
      "Random trees plus an enumeration of every field of every kind with each characteristic "
      "value; every attribute is compared with the generated content."),
    P("P02", "Written text is standard KML saying exactly what the object holds",
      "The text written for any object, read according to the KML 2.2, gx and Atom vocabularies, "
      "has the standard element and attribute names, namespaces and value forms, and carries "
      "exactly the values set on the object: each once, in the right place, none missing and none "
      "made up. An element lacking the content that KML requires of it is left out as a whole.",
      ["inputs"], "every object tree, complete or with missing content",
      "Tests compare a few literal documents; a misspelled element, a wrong namespace or a value "
      "in the wrong place survives every round-trip test as the reader makes the same mistake.",
      ["base.py", "helpers.py", "registry.py", "geometry.py", "features.py", "styles.py", "data.py",
       "gx.py", "model.py", "overlays.py", "views.py", "links.py", "times.py", "atom.py"],
      [("setters", "fastkml/helpers.py:text_subelement..coords_subelement_list"),
       ("node names and namespaces", "fastkml/*.py:RegistryItem(ns_ids, node_name)"),
       ("truth decides presence", "fastkml/*.py:__bool__")],
      "differential testing of the writer against an independent KML reader",
      "The oracle is a separate reader written from the KML reference, sharing no code with "
      "fastkml; it rejects anything it cannot account for."),
    P("P03", "Every equivalent spelling of a document reads as the same content",
      "A KML document reads as the same content, strictly and leniently, however it is spelled: "
      "namespace prefixes, quoting, CDATA, entities, encodings, white space, comments and "
      "processing instructions anywhere, equivalent number, boolean and date forms, order of "
      "differently named children, unknown elements and attributes beside the known ones. All "
      "and only the values in the document are in the objects.",
      ["inputs"], "every valid document and every choice among its equivalent spellings",
      "Tests read documents written by the library itself or by hand in one spelling.",
      ["base.py", "helpers.py", "geometry.py", "gx.py", "times.py", "kml.py", "enums.py"],
      [("child lookup", "fastkml/helpers.py:subelement_*_kwarg, xml_subelement*_kwarg"),
       ("text of a node", "fastkml/helpers.py:node_text_kwarg"),
       ("coordinate text", "fastkml/geometry.py:subelement_coordinates_kwarg")],
      "metamorphic and differential testing of the reader against an independent writer",
      "Documents come from an independent writer that chooses spellings at random."),
    P("P04", "Verbosity only decides whether default values are spelled out",
      "Terse output leaves out exactly those optional values that equal the KML default, verbose "
      "output additionally writes exactly the KML defaults of unset values, normal output writes "
      "exactly what is set. With defaults filled in, all three describe the same content, and no "
      "level changes or drops a value that differs from its default.",
      ["inputs", "configurations"], "every object tree at every verbosity level",
      "A test exists for few classes and defaults; the rest of the 66 kinds, zero and false "
      "values, and nested elements are open.",
      ["helpers.py", "base.py", "enums.py", "styles.py", "views.py", "overlays.py", "links.py",
       "geometry.py", "data.py"],
      [("default handling", "fastkml/helpers.py:get_value"),
       ("registered defaults", "fastkml/*.py:RegistryItem(default)")],
      "property-based testing against a reference model of KML defaults",
      "The table of defaults is written from the KML reference, for every field."),
    P("P05", "Precision rounds coordinates to that many decimals and touches nothing else",
      "Writing with a precision writes every coordinate of every geometry as the correctly rounded "
      "decimal with that many digits and changes nothing else in the output; writing without a "
      "precision loses no digit of any coordinate. Dimensions, order and number of points are the "
      "same either way.",
      ["inputs", "configurations"], "every geometry, every float and every precision",
      "Tests use a few short coordinates and one or two precisions.",
      ["geometry.py", "gx.py", "helpers.py", "base.py"],
      [("coordinate formatting", "fastkml/geometry.py:coordinates_subelement"),
       ("track coordinates", "fastkml/helpers.py:coords_subelement_list"),
       ("option passed down", "fastkml/base.py:_XMLObject.etree_element")],
      "property-based testing with an exact decimal oracle",
      "Exact decimal arithmetic decides each coordinate text."),
    P("P06", "Output is schema-valid and validation agrees with the KML schema",
      "Whatever is written from content the KML 2.2 schema allows is valid for that schema. "
      "Validation of elements, trees and files says valid exactly when the OGC schema does, and "
      "parsing a file with validation switched on refuses exactly the invalid documents.",
      ["inputs", "configurations"],
      "every object tree of schema-valid values; every small change of the XML",
      "The validator is tested on a handful of good and bad files, and order of elements in output "
      "on few combinations.",
      ["validator.py", "kml.py", "base.py", "registry.py"],
      [("validate", "fastkml/validator.py:validate"),
       ("validating parse", "fastkml/kml.py:lxml_parse_and_validate"),
       ("order of registration", "fastkml/*.py:registry.register")],
      "property-based and mutation fuzzing against a pristine copy of the OGC schema",
      "libxml2 with an independent copy of the schema decides validity."),
    P("P07", "Strict reading refuses every malformed typed value",
      "In strict mode, a boolean, integer, number, enumeration, date-time or coordinate text that "
      "is malformed, in an element or attribute anywhere in a document, makes reading fail with "
      "the library's parse error. A document whose values are all well-formed never fails.",
      ["inputs"], "every document, every typed value in it and every malformed text",
      "Tests plant one or two bad values in a few elements.",
      ["helpers.py", "geometry.py", "gx.py", "times.py", "enums.py", "exceptions.py"],
      [("error policy", "fastkml/helpers.py:handle_error"),
       ("typed getters", "fastkml/helpers.py:*_kwarg"),
       ("enumerations", "fastkml/enums.py:RelaxedEnum")],
      "fault injection into generated documents, with shrinking",
      "A single typed value is replaced by a malformed one; the document without the fault is the "
      "control."),
    P("P08", "Lenient reading loses exactly the malformed values",
      "In lenient mode, malformed or empty values never make reading fail: each of them, and "
      "nothing else, is absent from the result, and every other value in the document is read as "
      "if the document had been fine. Enumerations are accepted in any letter case.",
      ["inputs", "fault_sequences"], "every document and every set of values replaced in it",
      "Tests cover single faults in single elements.",
      ["helpers.py", "geometry.py", "gx.py", "times.py", "enums.py"],
      [("error policy", "fastkml/helpers.py:handle_error"),
       ("relaxed enumerations", "fastkml/enums.py:RelaxedEnum._missing_")],
      "multi-fault injection into generated documents against a reference model",
      "The expected result is the model with exactly the faulty values removed."),
    P("P09", "A file holds what was last written, and parsing it gives that back",
      "After any sequence of writes, a .kml file holds the document written to it last and a .kmz "
      "file is an archive with that document, whatever the name, options, encoding or earlier "
      "content. Parsing a file by name, path or open file, with either XML library, in any mode, "
      "gives the content it holds, and a document that cannot be written leaves an existing file "
      "as it was.",
      ["histories", "inputs", "configurations"],
      "every sequence of writes, failed writes and reads over several files",
      "Tests write single files once.",
      ["kml.py", "base.py", "validator.py"],
      [("write", "fastkml/kml.py:KML.write"), ("parse", "fastkml/kml.py:KML.parse")],
      "stateful model-based testing of file histories in a scratch directory",
      "The model maps file names to documents; both bytes on disk and parse results are compared."),
    P("P10", "lxml and the standard library's ElementTree give the same results",
      "Whichever XML library is in force when writing and when reading, the written text means the "
      "same, the objects read are equal, and the same inputs are refused with the same errors.",
      ["inputs", "configurations"],
      "every document, spelling and fault; every combination of libraries",
      "The test suite runs each test with the library it happens to name.",
      ["config.py", "base.py", "kml.py", "helpers.py", "validator.py", "types.py"],
      [("implementation switch", "fastkml/config.py:set_etree_implementation"),
       ("serialising", "fastkml/base.py:_XMLObject.to_string"),
       ("parsing", "fastkml/base.py:_XMLObject.from_string")],
      "differential testing between the two XML libraries",
      "Both implementations run on the same generated inputs and are also compared with the model."),
    P("P11", "Date-times keep their moment, offset and resolution",
      "Every KML date-time form - year, month, date, date and time with or without fraction and "
      "offset - is read as the right moment and resolution and written back meaning the same. "
      "Texts that are no such date are refused, and equality and the time accessors of features "
      "agree with the calendar.",
      ["inputs"], "every date, time, fraction, offset and resolution in years 1 to 9999",
      "Tests use a few dates in recent years.",
      ["times.py", "mixins.py", "helpers.py", "enums.py"],
      [("date type", "fastkml/times.py:KmlDateTime"),
       ("resolution", "fastkml/times.py:adjust_date_to_resolution"),
       ("accessors", "fastkml/mixins.py:TimeMixin")],
      "property-based testing against Python's calendar",
      "Lexical forms are generated from parts, so the oracle needs no parser."),
    P("P12", "Geometries convert to KML and back without changing",
      "Any point, line, ring, polygon, multi-part or nested collection given as a geometry object "
      "becomes KML elements with the same type, coordinates, order, holes and requested attributes, "
      "and the geometry of those elements, also after writing and reading, equals the one given. "
      "Elements built from coordinates, models, tracks and boundaries have the geometry their "
      "content describes, and giving a geometry twice is refused.",
      ["inputs"], "every geometry in two or three dimensions and every source of it",
      "Tests and hypothesis strategies cover homogeneous geometries, not nested and mixed ones with "
      "attributes from other geometry libraries.",
      ["geometry.py", "gx.py", "features.py", "model.py"],
      [("conversion", "fastkml/geometry.py:create_kml_geometry, create_multigeometry"),
       ("geometry accessors", "fastkml/geometry.py:*.geometry"),
       ("tracks", "fastkml/gx.py:track_items_to_geometry")],
      "property-based testing with a reference conversion (round trip and differential)",
      "Sources are pygeoif, shapely, mappings and objects with a geo interface."),
    P("P13", "Equality means equal content, and repr evaluates to an equal object",
      "Two objects built from the same content are equal however they were made, and objects that "
      "differ in a single attribute, child or order of children, at any depth, are not. Evaluating "
      "an object's representation gives an equal object, and so do copying and reading its own "
      "output.",
      ["inputs"], "every pair of object trees that are equal or differ in one place",
      "Tests compare few instances, and every round-trip test relies on equality being right.",
      ["base.py", "geometry.py", "kml_base.py", "times.py", "containers.py", "features.py",
       "styles.py", "data.py", "gx.py"],
      [("equality", "fastkml/base.py:_XMLObject.__eq__, fastkml/geometry.py:*.__eq__"),
       ("representation", "fastkml/*.py:__repr__")],
      "metamorphic testing: equal builds and single differences",
      "Single differences are generated for every field of every kind."),
    P("P14", "Searching a tree returns exactly the matching objects",
      "Searching from any object by types, attribute values or both returns every matching object "
      "at or below it once and nothing else, containers before their contents and list members in "
      "order; the single-result search returns the first of them or nothing. Looking up a style by "
      "url in a document returns a style with that id if there is one, preferring the document's "
      "own, and nothing otherwise.",
      ["inputs"], "every tree, starting point, query and url",
      "Tests search small fixed trees.",
      ["utils.py", "containers.py"],
      [("traversal", "fastkml/utils.py:find_all, get_all_attrs"),
       ("matching", "fastkml/utils.py:has_attribute_values"),
       ("style lookup", "fastkml/containers.py:Document.get_style_by_url")],
      "property-based testing against a separate traversal",
      "Queries are drawn from the tree's own values, including unset ones, and compared by identity."),
    P("P15", "The samples of a track keep time, position and angle together",
      "A track's times, coordinates and angles belong together by position, whether it is built "
      "from samples, from parallel sequences, or read from interleaved or blocked elements, and "
      "incomplete samples never shift the others. Writing, reading, appending, removing and "
      "reordering samples keep every remaining sample intact and in order, alone and in "
      "multi-tracks.",
      ["inputs", "histories"], "every track, every arrangement of its elements and every edit",
      "Tests use tracks of two or three complete samples.",
      ["gx.py", "helpers.py"],
      [("samples", "fastkml/gx.py:Track, TrackItem, Angle"),
       ("lists of times and coordinates", "fastkml/helpers.py:datetime_subelement_list*, "
        "coords_subelement_list*")],
      "model-based stateful testing against a list of triples",
      "The model is a plain list of (time, coordinates, angle)."),
    P("P16", "An edit changes what it names and nothing else",
      "After any sequence of edits - setting, unsetting and replacing attributes and children, "
      "appending, inserting, removing, reordering and moving them, reading back in between - every "
      "object and the written text hold exactly the content the edits describe; what is put in is the "
      "object given itself. Other objects, and lists and mappings the caller passed in and goes on using, are not entangled with it, and a "
      "container refuses to be appended to itself.",
      ["histories"], "every sequence of edits over two object trees",
      "Tests make single edits.",
      ["base.py", "kml_base.py", "containers.py", "kml.py", "data.py", "features.py", "styles.py",
       "geometry.py", "gx.py"],
      [("constructors copy", "fastkml/*.py:__init__"),
       ("append methods", "fastkml/containers.py:_Container.append, fastkml/kml.py:KML.append, "
        "fastkml/data.py:Schema.append, SchemaData.append_data")],
      "stateful model-based testing of edit histories",
      "Both trees are compared with their models after every step."),
    P("P17", "Observing objects and reading documents changes nothing",
      "Writing, validating, comparing, representing, searching and asking an object for anything, "
      "in any order and any number of times, and reading any documents, good or bad, in between or "
      "from several threads, leaves all objects, caller data and library settings as they were. "
      "The same question always gets the same answer.",
      ["histories", "schedules"], "every sequence of observations and readings, also concurrent",
      "Tests ask each object once.",
      ["base.py", "registry.py", "helpers.py", "kml.py", "validator.py", "config.py", "utils.py"],
      [("registry lookups", "fastkml/registry.py:Registry.get"),
       ("namespace handling", "fastkml/base.py, fastkml/kml.py:KML.parse"),
       ("schema cache", "fastkml/validator.py:get_schema_parser")],
      "stateful testing of observation histories, some multi-threaded",
      "Snapshots of objects, elements and library tables before and after; every repeated "
      "observation must repeat its answer."),
    P("P18", "Content keeps the namespaces it is given in, reading and writing",
      "Documents in any of the KML namespaces, or in other namespaces named by the caller, read as "
      "the same content, and elements of foreign namespaces with familiar names are ignored. "
      "Objects read or built in given namespaces write all their own and nested elements in those "
      "namespaces and read back.",
      ["inputs", "configurations"], "every document and every choice of namespaces and prefixes",
      "Tests use the KML 2.2 namespace nearly throughout.",
      ["base.py", "helpers.py", "kml.py", "config.py", "kml_base.py", "atom.py", "gx.py"],
      [("namespace of an object", "fastkml/base.py:_XMLObject.__init__"),
       ("namespace of an element", "fastkml/helpers.py:get_ns"),
       ("inference from the root", "fastkml/kml.py:KML.parse")],
      "metamorphic testing under renaming of namespaces",
      "The reference content does not depend on the namespaces."),
    P("P19", "User-defined elements registered with the library behave like its own",
      "Values mapped for a user-defined element class, its ancestors or the library's own classes "
      "are written and read back like built-in ones at every verbosity, with inheritance of "
      "mappings from ancestors, in whatever order classes are registered and used. Classes for "
      "which nothing was registered behave as before.",
      ["programs", "histories"], "every class hierarchy and history of registrations and uses",
      "Tests register a few fixed classes, each before its first use.",
      ["registry.py", "base.py", "helpers.py"],
      [("lookup along the ancestry", "fastkml/registry.py:Registry.get"),
       ("registration", "fastkml/registry.py:Registry.register")],
      "model-based testing of generated class hierarchies and registration histories",
      "Classes and mappings are generated; the model is the set of mappings registered so far."),
    P("P20", "Reading any XML ends in an object or a documented error",
      "Reading any well-formed XML in lenient mode gives an object whose attributes have the "
      "declared types (only a schema without id is an error); in strict mode it gives an object or "
      "the documented error, and where strict reading succeeds both modes agree. What was read can "
      "be written and read strictly again, reaching a form that no longer changes.",
      ["inputs"], "every XML document made of the KML vocabulary in any structure",
      "Tests read documents that make sense.",
      ["helpers.py", "base.py", "geometry.py", "gx.py", "times.py", "kml.py", "data.py"],
      [("typed getters", "fastkml/helpers.py:*_kwarg"), ("error policy",
       "fastkml/helpers.py:handle_error")],
      "structure-aware fuzzing with invariants (types, agreement of modes, idempotence)",
      "Random vocabulary soup, tree mutations of valid documents and character damage."),
    P("P21", "Whatever is derived from an object follows its content",
      "At any moment in a history of edits, the geometry, time stamp and span, normal and highlight "
      "styles, icon reference, track views, tag name, styles by url and search results of every "
      "object are those of its content at that moment. An element is true exactly when it has the "
      "content KML requires of it.",
      ["histories", "inputs"], "every sequence of edits with observations in between",
      "Tests look at accessors of fresh objects.",
      ["mixins.py", "features.py", "geometry.py", "gx.py", "model.py", "styles.py", "utils.py",
       "containers.py"],
      [("accessors", "fastkml/mixins.py, fastkml/styles.py:StyleMap.normal, IconStyle.icon_href, "
        "fastkml/geometry.py:*.geometry, fastkml/gx.py:Track"),
       ("truth", "fastkml/*.py:__bool__")],
      "stateful model-based testing of edit histories",
      "The reference derives everything afresh from the model after each step."),
    P("P22", "Whatever is refused or lost in reading is reported where it stands",
      "The error raised by strict reading shows a malformed value of the document and the element "
      "it stands in. Lenient reading logs a warning or error for each value it drops, with its "
      "element and text, and nothing about values that are well-formed. A failed validation logs "
      "each complaint of the schema with the part of the document it is about, and a successful "
      "one logs none; all this with either XML library, where it can validate.",
      ["inputs"], "every document with any number of malformed values at any place",
      "Tests look at one or two messages; that no value disappears silently, whichever getter meets "
      "it, is open.",
      ["helpers.py", "geometry.py", "validator.py", "enums.py", "base.py", "kml.py"],
      [("error policy", "fastkml/helpers.py:handle_error"),
       ("coordinates", "fastkml/geometry.py:handle_invalid_geometry_error"),
       ("schema complaints", "fastkml/validator.py:handle_validation_error")],
      "multi-fault injection into generated documents, with marked faults and a log monitor",
      "Each fault carries a mark of its own, so that reports and faults can be matched."),
]


def main():
    lines, checks = [], []
    for p in ALL:
        m = importlib.import_module("kv.checks." + p["ident"].lower())
        lines.append({
            "id": p["ident"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": [FK + f for f in p["files"]],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": list(p["observe"]) or ["public API: constructors, attributes, "
                                                             "to_string, from_string, parse, write"],
                        "hook_needed": None}})
        checks.append({
            "property": p["ident"], "quick_cmd": f"./check {p['ident']} --tier quick",
            "thorough_cmd": f"./check {p['ident']} --tier thorough",
            "technique": p["technique"], "level": "exploration",
            "level_note": p["note"] + f" {m.COUNTS['quick']} random cases (quick), "
            f"{m.COUNTS['thorough']} (thorough). Assumes: "
            + ("; ".join(m.ASSUMPTIONS) if m.ASSUMPTIONS else "nothing further") + "."})
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["ident"]
    (HERE / "properties.jsonl").write_text("".join(json.dumps(x) + "\n" for x in lines))
    (HERE / "MANIFEST.json").write_text(json.dumps({
        "version": 1,
        "setup_cmd": "./check --self-test",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks: every check imports fastkml from /repo's working tree and uses its "
                 "public API only.",
    }, indent=1) + "\n")


main()
