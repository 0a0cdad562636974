# What each property's harness is built from.
NO_SANITIZE = "vptr,alignment,float-cast-overflow,object-size,function,null,enum"

INCLUDES = [
    "{GEN}", "{HERE}/pbt", "{HERE}/checks",
    "{REPO}/packages/boost", "{REPO}/packages/apib/include", "{REPO}/packages/apib/src",
    "{REPO}/packages/apib-parser/include", "{REPO}/packages/apib-parser/src",
    "{REPO}/packages/apib-parser/src/snowcrash", "{REPO}/packages/apib-parser/src/markdown-parser",
    "{REPO}/packages/drafter/src",
    "{HERE}/shim/mpark", "{HERE}/shim/pegtl", "{HERE}/shim/pegtl/tao", "{HERE}/shim/sundown", "{HERE}/shim/cmdline",
]

D = "drafter/src/"
A = "apib-parser/src/"
SOURCES = {
    "apib": ["apib/src/MediaType.cc"],
    "bytebuffer": [A + "markdown-parser/ByteBuffer.cc"],
    "mdnode": [A + "markdown-parser/MarkdownNode.cc", A + "markdown-parser/ByteBuffer.cc"],
    "section": [A + "snowcrash/Section.cc"],
    "regex": [A + "snowcrash/posix/RegexMatch.cc"],
    "sourcemap": [D + "SourceMapUtils.cc"],
    "mediatypeparser": [A + "MediaTypeParser.cc"],
    "uri": [A + "snowcrash/UriTemplateParser.cc"],
    "options": [D + "options.cc"],
    "serializekey": [D + "SerializeKey.cc"],
    "mediatype": ["apib/src/MediaType.cc", D + "backend/MediaTypeS11n.cc"],
    "refract": [D + s for s in (
        "refract/Element.cc refract/InfoElements.cc refract/Registry.cc refract/Query.cc refract/Utils.cc "
        "refract/VisitorUtils.cc refract/TypeQueryVisitor.cc refract/ComparableVisitor.cc "
        "refract/IsExpandableVisitor.cc refract/ExpandVisitor.cc refract/PrintVisitor.cc "
        "refract/dsd/Array.cc refract/dsd/Bool.cc refract/dsd/Enum.cc refract/dsd/Extend.cc refract/dsd/Holder.cc "
        "refract/dsd/Member.cc refract/dsd/Null.cc refract/dsd/Number.cc refract/dsd/Object.cc refract/dsd/Option.cc "
        "refract/dsd/Ref.cc refract/dsd/Select.cc refract/dsd/String.cc utils/log/Trivial.cc").split()],
    "elementsize": [D + "refract/ElementSize.cc", D + "refract/ElementUtils.cc"],
    "so": [D + "utils/so/Value.cc", D + "utils/so/JsonIo.cc", D + "utils/so/YamlIo.cc"],
    "render": [D + s for s in "refract/JsonSchema.cc refract/JsonUtils.cc refract/JsonValue.cc refract/SerializeSo.cc".split()],
    "reporting": [D + "reporting.cc"],
    # everything that needs one of the absent submodules comes with its stand-in
    "snowcrash": [A + s for s in (
        "MediaTypeParser.cc snowcrash/Blueprint.cc snowcrash/BlueprintSourcemap.cc snowcrash/HTTP.cc "
        "snowcrash/HeadersParser.cc snowcrash/MSON.cc snowcrash/MSONOneOfParser.cc snowcrash/MSONSourcemap.cc "
        "snowcrash/MSONTypeSectionParser.cc snowcrash/MSONValueMemberParser.cc snowcrash/Section.cc "
        "snowcrash/Signature.cc snowcrash/UriTemplateParser.cc snowcrash/posix/RegexMatch.cc snowcrash/snowcrash.cc "
        "markdown-parser/ByteBuffer.cc markdown-parser/MarkdownNode.cc markdown-parser/MarkdownParser.cc").split()]
        + ["apib/src/MediaType.cc", "@shim/sundown/sundown_shim.cc"],
    "mdparser": [A + s for s in (
        "markdown-parser/ByteBuffer.cc markdown-parser/MarkdownNode.cc markdown-parser/MarkdownParser.cc").split()]
        + ["@shim/sundown/sundown_shim.cc"],
    "drafter": [D + s for s in (
        "ConversionContext.cc MsonOneOfSectionToApie.cc MsonTypeSectionToApie.cc NamedTypesRegistry.cc RefractAPI.cc "
        "RefractDataStructure.cc RefractElementFactory.cc RefractSourceMap.cc Render.cc Serialize.cc "
        "SerializeResult.cc SerializeKey.cc SourceMapUtils.cc backend/MediaTypeS11n.cc drafter.cc options.cc "
        "reporting.cc").split()],
    "cli": [D + "config.cc", D + "main.cc"],
}
SOURCES["core"] = SOURCES["refract"] + SOURCES["elementsize"] + SOURCES["so"] + SOURCES["render"]
SOURCES["pipeline"] = SOURCES["core"] + SOURCES["snowcrash"] + SOURCES["drafter"]

PER_SOURCE = {"main.cc": ["-Dmain=drafter_cli_main"]}

COMMON_ASSUMPTIONS = [
    "the harness and /repo's sources are compiled with clang 18, C++17, -O1, NDEBUG, AddressSanitizer and UBSan",
]

CHECKS = {
    "T01": {"repo": ["bytebuffer"], "harness": ["checks/t01.cc"]},
    "T02": {"repo": [], "harness": ["checks/t02.cc"]},
    "T03": {"repo": ["sourcemap", "bytebuffer"], "harness": ["checks/t03.cc"]},
    "T04": {"repo": ["mediatype"], "harness": ["checks/t04.cc"]},
    "T05": {"repo": ["mediatype", "mediatypeparser"], "harness": ["checks/t05.cc"]},
    "T06": {"repo": ["uri", "regex", "bytebuffer"], "harness": ["checks/t06.cc"]},
    "T07": {"repo": ["mdnode", "regex", "section"], "harness": ["checks/t07.cc"]},
    "S01": {"repo": ["so"], "harness": ["checks/s01.cc"]},
    "S02": {"repo": ["so"], "harness": ["checks/s02.cc"]},
    "S03": {"repo": ["so"], "harness": ["checks/s03.cc"]},
    "S04": {"repo": ["core"], "harness": ["checks/s04.cc"]},
    "S05": {"repo": ["core"], "harness": ["checks/s05.cc"]},
    "S06": {"repo": ["core"], "harness": ["checks/s06.cc"]},
    "R01": {"repo": ["refract"], "harness": ["checks/r01.cc"]},
    "R02": {"repo": ["refract"], "harness": ["checks/r02.cc"]},
    "R03": {"repo": ["refract", "elementsize"], "harness": ["checks/r03.cc"]},
    "R04": {"repo": ["refract"], "harness": ["checks/r04.cc"]},
    "R05": {"repo": ["refract"], "harness": ["checks/r05.cc"]},
    "R06": {"repo": ["refract"], "harness": ["checks/r06.cc"]},
    "R07": {"repo": ["refract"], "harness": ["checks/r07.cc"]},
    "R08": {"repo": ["refract","elementsize"], "harness": ["checks/r08.cc"]},
    "R09": {"repo": ["refract","elementsize"], "harness": ["checks/r09.cc"]},
    "R10": {"repo": ["pipeline"], "harness": ["checks/r10.cc"]},
    "P01": {"repo": ["pipeline"], "harness": ["checks/p01.cc"], "fuzz_seconds": 140},
    "P02": {"repo": ["pipeline"], "harness": ["checks/p02.cc"]},
    "P03": {"repo": ["pipeline"], "harness": ["checks/p03.cc"]},
    "P05": {"repo": ["pipeline"], "harness": ["checks/p05.cc"]},
    "P06": {"repo": ["pipeline"], "harness": ["checks/p06.cc"]},
    "P07": {"repo": ["pipeline"], "harness": ["checks/p07.cc"]},
    "P08": {"repo": ["pipeline"], "harness": ["checks/p08.cc"]},
    "P04": {"repo": ["pipeline"], "harness": ["checks/p04.cc"]},
    "P09": {"repo": ["pipeline"], "harness": ["checks/p09.cc"]},
    "P10": {"repo": ["pipeline", "cli"], "harness": ["checks/p10.cc"], "fuzz_seconds": 0},
    "P11": {"repo": ["pipeline"], "harness": ["checks/p11.cc"], "fuzz_seconds": 0, "sanitizer": "thread"},
}
